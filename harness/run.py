"""run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE] [--scale X] [--target NAME]"""
import argparse
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B", *sys.argv])
for name in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS"):
    os.environ.setdefault(name, "1")

import boot  # noqa: E402


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("ident")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--replay")
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("--target")
    args = parser.parse_args()
    import core

    if args.replay:
        return core.replay(args.ident, args.replay)
    return core.run_property(args.ident, args.tier, args.seed, args.scale, args.target)


if __name__ == "__main__":
    try:
        code = main()
    except boot.HarnessError as exc:
        print(f"harness error: {exc}", file=sys.stderr)
        code = 2
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
