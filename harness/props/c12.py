"""C12: runs are reproducible - same instance and seeds give the same plan."""
import atexit
import json
import os
import random
import select
import subprocess
import sys

from hypothesis import strategies as st

import algos
import gen
import plans
import ref
from core import Target, ensure
from boot import HarnessError
from props import c01
from world import World, jit, snapshot

ID = "C12"
ORACLE = "metamorphic relation: the same solve again, under other states of the process-wide generator and after other solves"
RULE = ("A case is an instance (some with routes of 17 and more stops, where positions are sampled), a set-iteration order, an algorithm "
        "configuration with its seeds, two states of the process-wide generator and optionally another solve in between; or (processes) "
        "the second solve happens in another process, in which strings hash differently. "
        "Non-trivial: the plan serves at least two trips.")
ASSUMPTIONS = ["unordered inputs are walked in the same order in both solves (the harness fixes the identity hashes)",
               "computation time is not part of the plan"]


def picture(result):
    return sorted(((r.vehicle.identifier, snapshot(r)) for r in result.routes), key=lambda x: (str(x[0]), repr(x[1])))


def solve(case, state):
    world = World(case["inst"], case["order"])
    initial = None
    if "routes" in case:
        initial = plans.make_result(world, plans.build_planning(world, case))
    random.seed(state)
    numpy = __import__("sys").modules.get("numpy")
    if numpy is not None:
        numpy.random.seed(state)
        array = numpy.random.get_state()[1].tolist()
    before = random.getstate()
    result = algos.run(world, case["cfg"], initial)
    ensure(random.getstate() == before, "solving draws from the process-wide random generator")
    if numpy is not None:
        ensure(numpy.random.get_state()[1].tolist() == array, "solving draws from numpy's process-wide random generator")
    return result


def check(case, ctx):
    first = solve(case, case["states"][0])
    shown, value = picture(first), first.optimization_value
    if case["other"] is not None:
        other = World(case["other"]["inst"], case["other"]["order"])
        algos.run(other, case["other"]["cfg"])
        ctx.label("another solve in between")
    second = solve(case, case["states"][1])
    ensure(ref.same(picture(second), shown), lambda: f"solved again: {picture(second)}, at first {shown}")
    ensure(ref.same(second.optimization_value, value), lambda: f"solved again: value {second.optimization_value}, at first {value}")
    ensure(ref.same(picture(first), shown), "solving again changes the plan of the first solve")
    ctx.label(algos.name(case["cfg"]))
    count = sum(1 for r in first.routes for _ in r.trips)
    longest = max((len(r.stops) for r in first.routes), default=0)
    ctx.label("17 and more stops" if longest >= 17 else "fewer stops")
    ctx.nontrivial(count >= 2)


_workers = {}


def worker(seed):
    """A process of its own, kept for later cases, whose strings hash by the given seed."""
    one = _workers.get((os.getpid(), seed))
    if one is None or one.poll() is not None:
        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "worker.py")
        one = subprocess.Popen([sys.executable, "-B", path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
                               env={**os.environ, "PYTHONHASHSEED": str(seed)})
        _workers[os.getpid(), seed] = one
        atexit.register(one.kill)
    return one


def elsewhere(case, state, seed):
    one = worker(seed)
    one.stdin.write(json.dumps({"case": case, "state": state}) + "\n")
    one.stdin.flush()
    ready, _, _ = select.select([one.stdout], [], [], 240)
    line = one.stdout.readline() if ready else ""
    if not line:
        one.kill()
        raise HarnessError("no answer from the other process")
    return json.loads(line)


def plain(value):
    return json.loads(json.dumps(value))


def check_processes(case, ctx):
    here = solve(case, case["states"][0])
    there = elsewhere(case, case["states"][1], case["hashing"])
    ensure(there["message"] is None, lambda: f"solved in another process: {there['message']}")
    ensure(ref.same(there["plan"], plain(picture(here))), lambda: f"solved in another process: {there['plan']}, here {picture(here)}")
    ensure(ref.same(there["value"], plain(list(here.optimization_value))),
           lambda: f"solved in another process: value {there['value']}, here {here.optimization_value}")
    ctx.label(algos.name(case["cfg"]))
    ctx.nontrivial(sum(1 for r in here.routes for _ in r.trips) >= 2)


@st.composite
def extras(draw):
    return {"states": [draw(st.integers(0, 9)), draw(st.integers(10, 19))],
            "other": draw(st.one_of(st.none(), c01.cases(trips=(1, 4), vehicles=(1, 2))))}


@st.composite
def cases(draw):
    return {**draw(c01.cases()), **draw(extras())}


@st.composite
def plan_cases(draw):
    return {**draw(c01.plan_cases()), **draw(extras())}


zeros = st.one_of(st.just(0), gen.seeds)


@st.composite
def long_cases(draw):
    """Many unconstrained trips, nearly all on one vehicle; positions and visits come out of one number (so that they differ)."""
    rng = random.Random(draw(st.integers(0, 2 ** 32)))
    metric = draw(st.sampled_from(["manhattan", "euclidean"]))
    n = draw(st.sampled_from([9, 11, 12, 16, 20]))
    place = lambda: [rng.randint(-8, 8), rng.randint(-8, 8)]
    vs = [{"id": str(i), "o": place(), "oe": 0, "ol": None, "d": None, "de": 0, "dl": None, "cap": 30, "timeout": None}
          for i in range(draw(st.integers(1, 2)))]
    ts = [{"id": str(i), "o": place(), "d": place(), "oe": 0, "ol": None, "od": rng.choice([0, 0, 1]), "de": 0, "dl": None,
           "dd": rng.choice([0, 0, 2]), "cap": 1, "timeout": None, "bonus": rng.choice([0, 3])} for i in range(n)]
    if draw(gen.rare):
        for t in ts[-2:]:
            t["oe"] = rng.randint(0, 100)

    def mixed(ids):
        pending, riding, out = list(ids), [], []
        while pending or riding:
            if pending and (not riding or rng.random() < 0.5):
                riding.append(pending.pop(rng.randrange(len(pending))))
                out.append(("P", riding[-1]))
            else:
                out.append(("D", riding.pop(rng.randrange(len(riding)))))
        return out

    inst = {"metric": metric, "objective": draw(st.sampled_from(["dial", "dial", "taxi", "hash"])), "vehicles": vs, "trips": ts}
    case = {"inst": inst, "order": draw(gen.orders), "states": [draw(st.integers(0, 9)), draw(st.integers(10, 19))], "other": None}
    kind = draw(st.sampled_from(["reallocation", "insertion", "insertion", "sequential"]))
    cut = n - draw(st.integers(0, 2)) if len(vs) > 1 else n
    if kind == "insertion":
        case["cfg"] = {"kind": "insertion", "insertion": {"iterator": draw(st.sampled_from(["ranking", "best", "stateless"])),
                                                          "strategy": draw(st.sampled_from(["sampling", None])), "criterion": None,
                                                          "seed": draw(zeros)}}
        late = draw(st.integers(1, 2))
        first = plans.to_stops(inst, mixed(t["id"] for t in ts[:n - late]), False)
        case["routes"] = [{"vehicle": "0", "stops": first}] + [{"vehicle": v["id"], "stops": []} for v in vs[1:]]
        return case
    routes = [{"vehicle": "0", "stops": plans.to_stops(inst, mixed(t["id"] for t in ts[:cut]), False)}]
    if len(vs) > 1:
        routes.append({"vehicle": "1", "stops": plans.to_stops(inst, mixed(t["id"] for t in ts[cut:]), False)})
    case["routes"] = routes
    if kind == "reallocation":
        case["cfg"] = {"kind": "local", "first": {"iterator": "ranking", "strategy": None, "criterion": None, "seed": 1},
                       "local": {"strategy": "reallocation", "threshold": 1}}
    else:
        case["cfg"] = {"kind": "sequential", "first": {"iterator": "ranking", "strategy": None, "criterion": None, "seed": 1},
                       "steps": draw(st.one_of(st.none(), st.just([["local", {"strategy": "reallocation", "threshold": 1}]]))),
                       "seed": draw(zeros)}
    return case


@st.composite
def process_cases(draw):
    case = draw(st.one_of(cases(), plan_cases(), plan_cases()))
    case.update(other=None, hashing=draw(st.integers(1, 3)))
    return case


@st.composite
def far_cases(draw):
    return {**draw(long_cases()), "hashing": draw(st.integers(1, 3))}


TARGETS = [
    Target("processes", process_cases(), check_processes, 350, 20000),
    Target("far-processes", far_cases(), check_processes, 60, 2000, cpu=60),
    Target("algorithms", cases(), check, 900, 40000),
    Target("from-plan", plan_cases(), check, 500, 20000),
    Target("long-routes", long_cases(), check, 160, 5000, cpu=60),
]
