"""Case runner: generates cases with Hypothesis in forked shards, replays the saved corpus, writes the evidence.

A property module (props/cNN.py) defines
  ID, RULE, ASSUMPTIONS (list), TARGETS (list of Target).
A case is a JSON value. check(case, ctx) raises Violation (or anything else) when the property does not hold.
"""
import contextlib
import glob
import hashlib
import importlib
import json
import os
import resource
import signal
import sys
import tempfile
import time
import traceback

from boot import HarnessError, OUT, REPO, VERIF, load_sut

CASE_CPU_S = 20.0           # a case takes milliseconds; this much CPU on one of them means it does not terminate
SHRINK_S = 45.0             # after the first failure of a shard, keep shrinking for at most this long
TIERS = ("quick", "thorough")
BUDGET_S = {"quick": 420.0, "thorough": 6 * 3600.0}


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


class Stop(KeyboardInterrupt):
    """Leaves Hypothesis immediately."""


class Target:
    def __init__(self, name, strategy, check, quick, thorough, cpu=CASE_CPU_S, known=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.counts = {"quick": quick, "thorough": thorough}
        self.cpu = cpu
        self.known = known      # callable(case, message) -> finding key or None


class Ctx:
    """Per-case recorder."""

    def __init__(self):
        self.labels = {}
        self.key = None
        self.note = None

    def label(self, name, times=1):
        self.labels[name] = self.labels.get(name, 0) + times

    def nontrivial(self, when=True, note=None):
        if when:
            self.key = True
        if note is not None:
            self.note = note


def ensure(condition, message):
    if not condition:
        raise Violation(message() if callable(message) else message)


def _alarm(_signum, _frame):
    raise Hang()


@contextlib.contextmanager
def cpu_limit(seconds):
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def describe(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    where = ""
    for frame in reversed(frames):
        if os.path.realpath(frame.filename).startswith(os.path.realpath(REPO) + os.sep):
            where = f" at {os.path.relpath(frame.filename, REPO)}:{frame.lineno} ({frame.name})"
            break
    else:
        if frames:
            where = f" at {os.path.basename(frames[-1].filename)}:{frames[-1].lineno}"
    return f"unexpected {type(exc).__name__}: {str(exc)[:300]}{where}"


def run_case(target, case, ctx):
    """None when the property holds on the case, else the message."""
    try:
        with cpu_limit(target.cpu):
            target.check(case, ctx)
        return None
    except Violation as exc:
        return str(exc)
    except HarnessError:
        raise
    except Hang:
        return f"does not terminate (used {target.cpu:.0f} s of CPU on this input)"
    except Exception as exc:        # in-domain input: nothing may be raised
        return describe(exc)


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def _size(case):
    return len(json.dumps(case))


# ---------------------------------------------------------------------------------------------
def _shard(target, seed, count, budget, out):
    """Runs in a forked child."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = {"evaluations": 0, "keys": [], "labels": {}, "samples": [], "failure": None, "complete": True,
             "known": {}}
    keys = set()
    start = time.monotonic()
    state = {"failed_at": None}

    def test(case):
        if state["failed_at"] is not None and time.monotonic() - state["failed_at"] > SHRINK_S:
            raise Stop()
        if state["failed_at"] is None and time.monotonic() - start > budget:
            stats["complete"] = False
            raise Stop()
        ctx = Ctx()
        message = run_case(target, case, ctx)
        stats["evaluations"] += 1
        if message is not None and target.known is not None:
            known = target.known(case, message)
            if known is not None:
                stats["known"][known] = stats["known"].get(known, 0) + 1
                return
        if state["failed_at"] is None and message is None:
            for name, times in ctx.labels.items():
                stats["labels"][name] = stats["labels"].get(name, 0) + times
            if ctx.key:
                key = case_key(case)
                if key not in keys:
                    keys.add(key)
                    if len(stats["samples"]) < 2 and _size(case) < 2500 and len(keys) % 7 == 3:
                        stats["samples"].append({"target": target.name, "case": case, "note": ctx.note})
        if message is not None:
            if state["failed_at"] is None:
                state["failed_at"] = time.monotonic()
            if stats["failure"] is None or _size(case) <= _size(stats["failure"]["case"]):
                stats["failure"] = {"case": case, "message": message}
            raise Violation("case failed")

    test = hypothesis.seed(seed)(settings(
        max_examples=count, deadline=None, database=None, report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink), print_blob=False,
    )(given(target.strategy)(test)))
    try:
        test()
    except (Violation, Stop):
        pass
    except HarnessError:
        raise
    except Exception:
        if stats["failure"] is None:
            raise
    stats["keys"] = sorted(keys)
    with open(out, "w") as file:
        json.dump(stats, file)


def _spawn(target, seed, count, budget, out):
    pid = os.fork()
    if pid:
        return pid
    code = 2
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        sys.stdout = os.fdopen(os.dup(1), "w")
        _shard(target, seed, count, budget, out)
        code = 0
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
    finally:
        os._exit(code)


def derive(*parts):
    return int.from_bytes(hashlib.sha256(":".join(map(str, parts)).encode()).digest()[:6], "big")


# ---------------------------------------------------------------------------------------------
def load_findings(ident):
    """Known findings of one property: lines 'finding: property=<id> key=<key> <what>'."""
    found = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            words = line.split()
            if len(words) > 3 and words[0] == "finding:" and words[1] == f"property={ident}":
                found[words[2].removeprefix("key=")] = " ".join(words[3:])
    return found


def write_replay(ident, target, failure):
    folder = os.path.join(OUT, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{ident}-{target}-{case_key(failure['case'])}.json")
    with open(path, "w") as file:
        json.dump({"property": ident, "target": target, "case": failure["case"], "message": failure["message"]},
                  file, indent=1)
    return path


def run_property(ident, tier, seed, scale=1.0, only=None):
    began = time.monotonic()
    load_sut()
    module = importlib.import_module(f"props.{ident.lower()}")
    targets = [t for t in module.TARGETS if only is None or t.name == only]
    findings = load_findings(ident)
    report = {"evaluations": 0, "keys": {}, "labels": {}, "samples": [], "complete": True, "known": {}}
    failures = []

    # ---- saved inputs first (minimal cases of past failures)
    by_name = {t.name: t for t in module.TARGETS}
    corpus = 0
    for path in sorted(glob.glob(os.path.join(VERIF, "corpus", ident, "*.json"))):
        saved = json.load(open(path))
        target = by_name.get(saved["target"])
        if target is None or (only is not None and target.name != only):
            continue
        pid = os.fork()         # isolated: a saved input may hang or exhaust memory on a broken tree
        if pid == 0:
            code = 2
            try:
                resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                sys.stdout = os.fdopen(os.dup(1), "w")
                message = run_case(target, saved["case"], Ctx())
                if message is not None and target.known is not None and target.known(saved["case"], message):
                    message = None
                code = 0
                if message is not None:
                    code = 1
                    with open(path_out(ident, pid=os.getpid()), "w") as file:
                        file.write(message)
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(status)
        corpus += 1
        report["evaluations"] += 1
        if code == 1:
            out = path_out(ident, pid=pid)
            message = open(out).read()
            os.unlink(out)
            failures.append((target.name, {"case": saved["case"], "message": message}))
        elif code != 0:
            raise HarnessError(f"saved input {path} could not be run (exit {code})")

    # ---- generated inputs
    if not failures:
        cpus = max(1, min(8, os.cpu_count() or 1))
        jobs = []
        for target in targets:
            count = max(1, int(target.counts[tier] * scale))
            shards = min(cpus, max(1, count // 25))
            if tier == "thorough":
                shards = min(count, max(shards, cpus * 2))
            for shard in range(shards):
                share = count // shards + (1 if shard < count % shards else 0)
                jobs.append((target, derive(seed, ident, target.name, shard, tier), share))
        # the heaviest targets interleaved, so that shards of different targets run side by side
        with tempfile.TemporaryDirectory(prefix=f"verif-{ident}-") as folder:
            pending = list(enumerate(jobs))
            running = {}
            while pending or running:
                while pending and len(running) < cpus and not failures:
                    number, (target, shard_seed, share) = pending.pop(0)
                    out = os.path.join(folder, f"{number}.json")
                    left = BUDGET_S[tier] - (time.monotonic() - began)
                    if left <= 0:
                        report["complete"] = False
                        continue
                    pid = _spawn(target, shard_seed, share, left, out)
                    running[pid] = (target, out)
                if failures and pending:
                    pending = []
                if not running:
                    continue
                pid, status = os.wait()
                if pid not in running:
                    continue
                target, out = running.pop(pid)
                code = os.waitstatus_to_exitcode(status)
                if code != 0 or not os.path.exists(out):
                    for other in running:
                        with contextlib.suppress(ProcessLookupError):
                            os.kill(other, signal.SIGKILL)
                    raise HarnessError(f"a shard of {ident}/{target.name} ended with {code}")
                stats = json.load(open(out))
                report["evaluations"] += stats["evaluations"]
                report["complete"] &= stats["complete"]
                for name, times in stats["labels"].items():
                    label = f"{target.name}: {name}"
                    report["labels"][label] = report["labels"].get(label, 0) + times
                for key in stats["keys"]:
                    report["keys"].setdefault(target.name, set()).add(key)
                for key, times in stats["known"].items():
                    report["known"][key] = report["known"].get(key, 0) + times
                if sum(1 for s in report["samples"] if s["target"] == target.name) < 2:
                    report["samples"] += stats["samples"][:1]
                if stats["failure"] is not None:
                    failures.append((target.name, stats["failure"]))

    failures.sort(key=lambda f: _size(f[1]["case"]))
    evidence = {
        "property": ident, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": report["evaluations"],
            "distinct_nontrivial": sum(len(v) for v in report["keys"].values()),
            "rule": module.RULE,
            "samples": report["samples"][:8],
            "nontrivial_per_target": {name: len(keys) for name, keys in sorted(report["keys"].items())},
            "labels": dict(sorted(report["labels"].items())),
            "saved_inputs_replayed": corpus,
            "planned_cases_all_run": bool(report["complete"]),
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "violations": len(failures),
        "wall_s": round(time.monotonic() - began, 2),
    }
    if report["known"]:
        evidence["coverage"]["known_finding_hits"] = report["known"]
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{ident}.json"), "w") as file:
        json.dump(evidence, file, indent=1)

    for key, what in findings.items():
        print(f"KNOWN-FINDING: property={ident} {what}")
    for name, failure in failures[:3]:
        path = write_replay(ident, name, failure)
        print(f"[{ident}/{name}] {failure['message']}")
        print(f"  input: {json.dumps(failure['case'])[:1500]}")
        print(f"VIOLATION property={ident} replay={path}")
    if not failures:
        print(f"{ident}: held on {report['evaluations']} cases "
              f"({evidence['coverage']['distinct_nontrivial']} distinct non-trivial), {evidence['wall_s']} s"
              + ("" if report["complete"] else " [time budget reached before all planned cases]"))
    return 1 if failures else 0


def path_out(ident, pid):
    return os.path.join(tempfile.gettempdir(), f"verif-{ident}-{pid}.msg")


def replay(ident, path):
    load_sut()
    module = importlib.import_module(f"props.{ident.lower()}")
    saved = json.load(open(path))
    target = {t.name: t for t in module.TARGETS}[saved["target"]]
    message = run_case(target, saved["case"], Ctx())
    if message is None:
        print(f"{ident}: the saved input passes")
        return 0
    print(f"[{ident}/{target.name}] {message}")
    print(f"VIOLATION property={ident} replay={path}")
    return 1
