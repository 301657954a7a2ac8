"""C24: result figures describe the returned plan."""
from copy import deepcopy

from hypothesis import strategies as st

import algos
import gen
import plans
import ref
from core import Target, ensure
from props.c05 import picture
from world import World, jit

ID = "C24"
ORACLE = "figures recomputed from the plan's stops and the job's trips"
RULE = ("A case is an instance with a plan over part of its trips (idle routes, no routes at all, zero loads, no trips) wrapped in a "
        "result and sometimes edited after its figures were read, or the result of a generated algorithm configuration. Non-trivial: some but not all trips are completed, or the job or the plan is empty.")
ASSUMPTIONS = []


def figures(world, result, inst):
    served = set()
    for r in result.routes:
        for s in r.stops:
            served |= {p.trip.identifier for p in s.pickup_planned_trips}
    loaded = {t["id"] for t in inst["trips"] if t["cap"] != 0}
    want = served & loaded
    got = result.completed_trips
    ensure({t.identifier for t in got} == want and len(list(got)) == len(want),
           lambda: f"completed trips {sorted(t.identifier for t in got)}, the routes serve {sorted(want)}")
    ensure(all(t is world.trips[t.identifier] for t in got), "a completed trip is not the job's")
    rate = len(want) / len(inst["trips"]) if inst["trips"] else 1.0
    ensure(ref.close(result.coverage_rate, rate), lambda: f"coverage {result.coverage_rate}, {len(want)} of {len(inst['trips'])} trips are completed")
    ensure(result.job is world.job and result.fleet is world.fleet, "the result names another job or fleet")
    ensure(set(result.trips) == set(world.trips.values()) and set(result.vehicles) == set(world.vehicles.values()),
           "the result names other trips or vehicles")
    ensure(result.objective is world.job.objective, "the result names another objective")
    ensure(bool(result.feasible) == all(bool(r.feasible) for r in result.routes), "the result's verdict is not its routes'")
    ensure(set(map(id, result.routes)) == set(map(id, result.planning.routes)), "the result's routes are not the plan's")
    ensure(result.planning_uuid == result.planning.uuid, "plan identity")
    snapshots = [(world.vehicle_data[r.vehicle.identifier], [
        {"pos": tuple(s.position.coordinates), "pickups": sorted(p.trip.identifier for p in s.pickup_planned_trips),
         "deliveries": sorted(p.trip.identifier for p in s.delivery_planned_trips),
         "start": s.starting_time, "departure": s.departure_time} for s in r.stops]) for r in result.routes]
    value = ref.planning_value(inst, snapshots)
    if not (inst["objective"] == "hash" and any(t["bonus"] for t in inst["trips"])):
        ensure(ref.close(tuple(result.optimization_value), tuple(value)), lambda: f"value {result.optimization_value}, the plan's is {value}")
    ensure(result.computation_time >= 0, "negative computation time")
    return want


def edit(planning, kind, i):
    """Changes the plan after its figures were read."""
    routes = sorted(planning.routes, key=lambda r: r.vehicle.identifier)
    if not routes:
        return
    route = routes[i % len(routes)]
    trips = sorted(set(route.trips), key=lambda t: t.identifier)
    if kind == "trip" and trips:
        route.remove_trip(trips[i % len(trips)])
        route.flush()
    elif kind == "route":
        planning.routes = {r for r in planning.routes if r is not route}


def check_plan(case, ctx):
    world = World(case["inst"], case["order"])
    planning = plans.build_planning(world, case)
    before = sorted(((r.vehicle.identifier, picture(r)) for r in planning.routes), key=repr)
    result = plans.make_result(world, planning)
    ensure(result.planning is planning, "the result holds another plan")
    want = figures(world, result, case["inst"])
    ensure(ref.same(sorted(((r.vehicle.identifier, picture(r)) for r in planning.routes), key=repr), before), "reading figures changes the plan")
    direct = jit.Result(result.algorithm, planning, case["seconds"])
    ensure(direct.computation_time == case["seconds"], "computation time")
    figures(world, direct, case["inst"])
    twin = deepcopy(result)
    for kind, i in case["edits"]:
        edit(planning, kind, i)
        figures(world, result, case["inst"])
        figures(world, direct, case["inst"])
    if case["edits"]:
        ensure(figures(world, twin, case["inst"]) == want, "a copy of the result follows the original's plan")
        ctx.label("edited plan")
    n = len(case["inst"]["trips"])
    ctx.label("no trips in the job" if not n else "all" if len(want) == n else "none" if not want else "some")
    if not case["routes"]:
        ctx.label("no routes")
    ctx.nontrivial(0 < len(want) < n or not n or not case["routes"])


@st.composite
def plan_cases(draw):
    case = draw(plans.plan_case(trips=draw(st.sampled_from([(0, 0), (0, 7), (1, 7)])), vehicles=(1, 3), gentle=draw(gen.half), merge=draw(gen.half), wants=True))
    if draw(gen.half):
        for t in case["inst"]["trips"]:
            if draw(gen.rare):
                t["cap"] = 0
    if draw(gen.rare):
        case["routes"] = []
    case["edits"] = draw(st.lists(st.tuples(st.sampled_from(["trip", "trip", "route"]), st.integers(0, 5)).map(list), max_size=3))
    case.update(order=draw(gen.orders), seconds=draw(st.sampled_from([0.0, 0.25, 3.0])))
    return case


def check_run(case, ctx):
    world = World(case["inst"], case["order"])
    if case["cfg"] == "naive":
        result = jit.NaiveAlgorithm(fleet=world.fleet, job=world.job).optimize()
        ensure(not list(result.completed_trips), "the naive algorithm completes trips")
        ctx.label("naive")
    else:
        result = algos.run(world, case["cfg"])
        ctx.label(algos.name(case["cfg"]))
    want = figures(world, result, case["inst"])
    n = len(case["inst"]["trips"])
    ctx.label("no trips in the job" if not n else "all" if len(want) == n else "none" if not want else "some")
    ctx.nontrivial(0 < len(want) < n or not n)


@st.composite
def run_cases(draw):
    return {"inst": draw(gen.instance(trips=draw(st.sampled_from([(0, 0), (0, 5), (1, 6)])), zero_cap=draw(gen.half))), "order": draw(gen.orders),
            "cfg": draw(st.one_of(st.just("naive"), *[algos.config()] * 5))}


TARGETS = [
    Target("plan", plan_cases(), check_plan, 2500, 100000),
    Target("run", run_cases(), check_run, 500, 20000),
]
