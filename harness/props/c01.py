"""C01: every plan an algorithm returns can be executed as scheduled."""
import math
from random import Random

from hypothesis import strategies as st

import algos
import gen
import plans
import ref
from core import Target, ensure
from world import World, jit, snapshot

ID = "C01"
ORACLE = "independent validity predicate over returned schedules"
RULE = ("A case is an instance (0-7 trips, 1-4 vehicles; windows, service times, loads, ride limits, vehicle hours), a "
        "set-iteration order and a configuration of insertion / local search / chains of them / iterative / sequential / GRASP. "
        "Non-trivial: the returned plan serves at least two trips. Labels count trips served per algorithm and plans "
        "with interleaved rides, waiting, and unserved trips.")
ASSUMPTIONS = ["excesses up to 1e-3 (the library's documented comparison bound) are accepted in returned plans",
               "every vehicle can at least drive from its origin to its destination within its own limits"]


def served(routes):
    return [t.identifier for r in routes for t in r.trips]


def executable(world, result):
    for route in result.routes:
        data = world.vehicle_data.get(route.vehicle.identifier)
        ensure(data is not None, "a route of a vehicle that is not in the fleet")
        plan = snapshot(route)
        for kind, excess, message in ref.route_problems(world.inst, data, plan):
            ensure(kind != "feasible", lambda: f"route of vehicle {data['id']}: {message} (by {excess})")
    ensure(bool(result.feasible), "a returned result reports itself infeasible")
    ensure(all(bool(r.feasible) for r in result.routes), "a returned route reports itself infeasible")


def describe(world, result, ctx, label):
    count = len(served(result.routes))
    ctx.label(label)
    ctx.label(f"{label}: trips served", count)
    ctx.label(f"{label}: trips unserved", len(world.inst["trips"]) - count)
    for r in result.routes:
        loads = [sum(1 for _ in s.pickup_planned_trips) - sum(1 for _ in s.delivery_planned_trips) for s in r.stops]
        running, peak = 0, 0
        for x in loads:
            running += x
            peak = max(peak, running)
        if peak > 1:
            ctx.label("interleaved rides")
        if any(s.waiting_time > 1e-6 for s in r.stops):
            ctx.label("waiting")
    return count


def check(case, ctx):
    world = World(case["inst"], case["order"])
    result = algos.run(world, case["cfg"])
    executable(world, result)
    count = describe(world, result, ctx, algos.name(case["cfg"]))
    ctx.nontrivial(count >= 2)


def check_from_plan(case, ctx):
    """From a hand-made feasible plan instead of one the library built."""
    world = World(case["inst"], case["order"])
    planning = plans.build_planning(world, case)
    initial = plans.make_result(world, planning)
    for r in case["routes"]:
        vehicle, plan = plans.simulate(case["inst"], r)
        if ref.route_problems(case["inst"], vehicle, plan, tol=1e-9):
            ctx.label("skipped: infeasible start")
            return
    result = algos.run(world, case["cfg"], initial)
    executable(world, result)
    count = describe(world, result, ctx, "from plan: " + algos.name(case["cfg"]))
    ctx.nontrivial(count >= 2)


@st.composite
def cases(draw, trips=(0, 7), vehicles=(1, 4)):
    if draw(gen.rare) and draw(gen.rare):
        vehicles = (0, 0)
    return {"inst": draw(gen.instance(trips=trips, vehicles=vehicles, zero_cap=draw(gen.rare))),
            "order": draw(gen.orders), "cfg": draw(algos.config())}


@st.composite
def plan_cases(draw):
    case = draw(plans.plan_case(trips=(1, 7), vehicles=(1, 3), merge=draw(gen.half), wants=True))
    case.update(order=draw(gen.orders), cfg=draw(algos.config(("insertion", "local", "local", "steps", "sequential"))))
    return case


def crowd(case):
    """An instance of realistic size out of a few parameters."""
    rng = Random(case["seed"])
    span, n = case["span"], case["n"]
    place = lambda: [rng.randint(-span, span), rng.randint(-span, span)]
    trips = []
    for i in range(n):
        t = {"id": str(i), "o": place(), "d": place(), "oe": 0, "ol": None, "od": rng.choice([0, 1, 2]), "de": 0, "dl": None,
             "dd": rng.choice([0, 1, 3]), "cap": rng.choice([1, 1, 2]), "timeout": None, "bonus": rng.choice([0, 5])}
        far = math.ceil(ref.dist(case["metric"], t["o"], t["d"]))
        if rng.random() < case["tight"]:
            t["oe"] = rng.randint(0, case["horizon"])
            t["ol"] = t["oe"] + rng.choice([5, 30, 100])
        if rng.random() < case["tight"]:
            t["timeout"] = far + rng.choice([0, 5, 20])
        trips.append(t)
    vehicles = [{"id": str(i), "o": place(), "oe": rng.choice([0, 0, 10]), "ol": rng.choice([None, None, case["horizon"]]), "d": None,
                 "de": 0, "dl": None, "cap": rng.randint(1, 4), "timeout": None} for i in range(case["m"])]
    return {"metric": case["metric"], "objective": case["objective"], "vehicles": vehicles, "trips": trips}


def check_crowd(case, ctx):
    with plans.plain_stack():
        check({"inst": crowd(case), "order": case["order"], "cfg": {"kind": "insertion", "insertion": case["insertion"]}}, ctx)


@st.composite
def crowds(draw):
    return {"seed": draw(st.integers(0, 2 ** 16)), "span": draw(st.sampled_from([2, 8, 30])), "n": draw(st.integers(30, 160)),
            "m": draw(st.sampled_from([1, 1, 2, 5, 40])), "metric": draw(st.sampled_from(["manhattan", "euclidean"])),
            "objective": draw(st.sampled_from(["dial", "taxi", "hash"])), "tight": draw(st.sampled_from([0, 0, 0.3, 1])),
            "horizon": draw(st.sampled_from([200, 2000])), "order": draw(gen.orders),
            "insertion": {"iterator": draw(st.sampled_from(["ranking", "stateless"])), "strategy": "tail",
                          "criterion": draw(st.sampled_from([None, *sorted(algos.CRITERIA)])), "seed": draw(gen.seeds)}}


TARGETS = [
    Target("crowd", crowds(), check_crowd, 12, 400),
    Target("algorithms", cases(), check, 1600, 60000),
    Target("from-plan", plan_cases(), check_from_plan, 1200, 40000),
]
