"""Solves cases of C12 in another process, one per line of input, under that process's own string-hash seed."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402

boot.load_sut()
import core  # noqa: E402
from props import c12  # noqa: E402

answers = os.fdopen(os.dup(1), "w")
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
for line in sys.stdin:
    order = json.loads(line)
    out = {}

    def run(case, _):
        result = c12.solve(case, order["state"])
        out.update(plan=c12.picture(result), value=list(result.optimization_value))

    message = core.run_case(core.Target("worker", None, run, 1, 1), order["case"], core.Ctx())
    answers.write(json.dumps({"message": message, **out}) + "\n")
    answers.flush()
