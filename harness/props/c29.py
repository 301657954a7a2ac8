"""C29: schedules, verdicts, values and algorithms follow the surface's own distances and travel times."""
import math

from hypothesis import strategies as st

import algos
import gen
import plans
import ref
from core import Target, ensure
from props import c01, c02, c03, c04, c08, c10, c11, c21, c27, c28
from world import World

ID = "C29"
ORACLE = "the oracles of the single properties (simulation, values, enumeration, optimum) on a surface written by the user"
RULE = ("A case places an instance on a surface of the user's: going east costs more than coming back or is the only way around, travel times differ from distances, and "
        "(except for the exact algorithm and for completeness) driving takes longer at recurring hours. Non-trivial: as in the property whose oracle decides.")
ASSUMPTIONS = ["the travel time a surface states for no particular moment is a lower bound of its travel times",
               "the exact algorithm and the completeness of insertions are judged on travel times that do not depend on the moment"]


@st.composite
def spaces(draw, rush=True):
    pace = draw(st.sampled_from([1, 2, 0.5, 0.7, 3]))
    busy = None
    if rush and draw(gen.half):
        period = draw(st.integers(6, 50))
        busy = [period, draw(st.integers(2, period - 2)), draw(st.sampled_from([1.5, 2, 3]))]
    return {"base": draw(st.sampled_from(["manhattan", "manhattan", "euclidean"])), "east": draw(st.sampled_from([1, 2, 1.5, 4])), "pace": pace, "rush": busy,
            "loop": draw(st.sampled_from([None, None, 17, 24]))}


def drivable(inst):
    """Every vehicle can at least drive from its origin to its destination."""
    for v in inst["vehicles"]:
        if v["d"] is not None:
            far = math.ceil(ref.longest(inst["metric"], v["o"], v["d"]))
            if v["dl"] is not None:
                v["dl"] = max(v["dl"], v["oe"] + far)
            if v["timeout"] is not None:
                v["timeout"] = max(v["timeout"], far)
    return inst


def tell(inst, ctx):
    space = inst["metric"]
    ctx.label("one way only" if space["loop"] else "one direction costs more" if space["east"] != 1 else "same both ways")
    ctx.label("rush hours" if space["rush"] else "same at all times")
    if space["pace"] != 1:
        ctx.label("times are not distances")


def on(check):
    def run(case, ctx):
        tell(case["inst"], ctx)
        check(case, ctx)
    return run


# ---- what trips and services say about themselves
def check_trips(case, ctx):
    inst = case["inst"]
    tell(inst, ctx)
    world = World(inst, 0)
    for t in inst["trips"]:
        trip = world.trips[t["id"]]
        oe, ol, de, dl = ref.tightened(inst, t)
        far, now = ref.dist(inst["metric"], t["o"], t["d"]), case["now"]
        for name, got, want in (
            ("distance", trip.distance, far), ("duration", trip.duration(now), ref.drive(inst["metric"], t["o"], t["d"], now)),
            ("distance between its services", trip.origin.distance_to(trip.destination), far),
            ("way back", trip.destination.distance_to(trip.origin), ref.dist(inst["metric"], t["d"], t["o"])),
            ("time between its services", trip.origin.time_to(trip.destination, now), ref.drive(inst["metric"], t["o"], t["d"], now)),
            ("time back", trip.destination.time_to(trip.origin, now=now), ref.drive(inst["metric"], t["d"], t["o"], now)),
            ("time at no particular moment", trip.origin_position.time_to(trip.destination_position), ref.drive(inst["metric"], t["o"], t["d"])),
            ("pickup from", trip.origin_earliest, oe), ("pickup until", trip.origin_latest, ol),
            ("delivery from", trip.destination_earliest, de), ("delivery until", trip.destination_latest, dl),
        ):
            ensure(ref.close(got, want), lambda: f"trip {t['id']} reports {name} {got}, the surface says {want}")
    ctx.nontrivial(bool(inst["trips"]))


trip_cases = spaces().flatmap(lambda m: st.builds(lambda inst, now: {"inst": inst, "now": now},
                                                  gen.instance(trips=(1, 3), vehicles=(1, 1), metric=m), st.integers(0, 60)))


# ---- schedules, verdicts, values
@st.composite
def route_cases(draw):
    case = draw(plans.route_case(metric=draw(spaces()), uniform_service=draw(gen.rare)))
    if any(len(s["P"]) + len(s["D"]) > 1 for s in case["route"]["stops"]):
        for t in case["inst"]["trips"]:
            t["od"] = 2
    case.update(reads=draw(st.integers(0, 3)), again=draw(gen.half), order=draw(gen.orders))
    return case


@st.composite
def history_cases(draw):
    inst = drivable(draw(gen.instance(trips=(1, 6), vehicles=(1, 1), metric=draw(spaces()), zero_cap=True)))
    first = [draw(c04.op("insert"))] if draw(gen.half) else []
    return {"inst": inst, "order": draw(gen.orders), "ops": first + draw(st.lists(c04.operations, min_size=3, max_size=30))}


@st.composite
def value_cases(draw):
    case = draw(plans.plan_case(trips=(0, 7), vehicles=(1, 4), metric=draw(spaces()), gentle=draw(gen.half), merge=draw(gen.half), wants=True))
    for t in case["inst"]["trips"]:
        if draw(gen.half):
            t["od"] = 0
        if draw(gen.half):
            t["bonus"] = draw(st.sampled_from([1, 5, 0.5]))
    if draw(gen.half):
        plans.punctual(draw, case["inst"], case["routes"])
    case["order"] = draw(gen.orders)
    return case


def check_chain(case, ctx):
    tell(case, ctx)
    c27.check(c27.chain(case["number"], case["metric"]), ctx)


chain_cases = st.builds(lambda m, n: {"metric": m, "number": n}, spaces(rush=False), st.integers(0, 2 ** 32))


# ---- algorithms
def check_algorithm(case, ctx):
    tell(case["inst"], ctx)
    world = World(case["inst"], case["order"])
    result = algos.run(world, case["cfg"])
    c01.executable(world, result)
    served = c02.sound(world, result)
    value = c08.value_of(world, result)
    ensure(ref.close(tuple(result.optimization_value), value), lambda: f"reports {result.optimization_value}, is worth {value}")
    count = c01.describe(world, result, ctx, algos.name(case["cfg"]))
    ctx.nontrivial(sum(served.values()) >= 2 and count >= 2)


@st.composite
def algorithm_cases(draw):
    inst = drivable(draw(gen.instance(trips=(0, 6), vehicles=(1, 3), metric=draw(spaces()))))
    return {"inst": inst, "order": draw(gen.orders), "cfg": draw(algos.config())}


@st.composite
def search_cases(draw):
    case = draw(plans.plan_case(trips=(1, 7), vehicles=(1, 3), metric=draw(spaces()), idle=draw(gen.rare), merge=True, wants=True))
    drivable(case["inst"])
    case.update(draw(c08.searches()))
    return case


@st.composite
def exact_cases(draw):
    case = draw(c21.cases(metric=draw(spaces(rush=False))))
    drivable(case["inst"])
    return case


TARGETS = [
    Target("trips", trip_cases, check_trips, 400, 10000),
    Target("verdicts", route_cases(), on(c03.check_route), 1500, 60000),
    Target("histories", history_cases(), on(c04.check), 800, 40000),
    Target("values", value_cases(), on(c10.check_value), 800, 40000),
    Target("algorithms", algorithm_cases(), check_algorithm, 600, 20000),
    Target("searches", search_cases(), on(c08.check_plan), 800, 40000),
    Target("criteria", spaces().flatmap(c11.cases), on(c11.check), 400, 20000),
    Target("optima", spaces().flatmap(c28.plan_cases), on(c28.check), 400, 20000),
    Target("completeness", c27.cases(spaces(rush=False)), on(c27.check), 400, 20000),
    Target("chains", chain_cases, check_chain, 400, 20000),
    Target("optimum", exact_cases(), on(c21.check), 150, 900),
]
