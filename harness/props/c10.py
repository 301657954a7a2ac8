"""C10: objective values equal their definition and add up over routes."""
from hypothesis import strategies as st

import gen
import plans
import ref
from core import Target, ensure
from world import World, jit

ID = "C10"
ORACLE = "objective definitions evaluated on an independently simulated schedule, plus additivity and argmax"
RULE = ("A case is an instance, an objective and a plan of up to 4 routes over it, feasible or not, with idle routes, "
        "shared stops, zero loads, bonuses and requested start times; or a list of candidates (results, plans, routes, "
        "tuples, missing ones) to choose from. Non-trivial: at least two trips in the plan, or at least two candidates with "
        "different values.")
ASSUMPTIONS = ["values are compared up to 1e-6 relative; on-time bonuses are not judged where the pickup is within 1e-6 of the earliest time but not equal to it"]


def simulated(case):
    return [plans.simulate(case["inst"], r) for r in case["routes"]]


def ambiguous(inst, routes):
    if inst["objective"] != "hash":
        return False
    trips = ref.trips_by_id(inst)
    for _, stops in routes:
        for s in stops:
            for t in s["pickups"]:
                gap = abs(ref.tightened(inst, trips[t])[0] - s["departure"])
                if 0 < gap < 1e-6:
                    return True
    return False


def check_parts(inst, objective, route, vehicle, stops):
    """The values of single trips and stops."""
    for i, (stop, plain) in enumerate(zip(route.stops, stops)):
        want = [0] * objective.dimension_count
        for planned_trip in stop.pickup_planned_trips:
            t = planned_trip.trip.identifier
            j = next(k for k, s in enumerate(stops) if t in s["deliveries"])
            if inst["objective"] == "dial":
                one = (1, -sum(ref.dist(inst["metric"], a["pos"], b["pos"]) for a, b in zip(stops[i:j], stops[i + 1:j + 1])))
            else:
                alone = [dict(plain, pickups=[t], deliveries=[]), dict(stops[j], pickups=[], deliveries=[t])]
                one = ref.planning_value(inst, [(vehicle, alone)])
            got = objective.optimization_function(planned_trip)
            ensure(ref.close(tuple(got), tuple(one)), lambda: f"trip {t} valued {got}, definition gives {one}")
            want = [a + b for a, b in zip(want, one)]
        got = objective.optimization_function(stop)
        ensure(isinstance(got, tuple) and ref.close(got, tuple(want)), lambda: f"stop {i} valued {got}, the trips it picks up are worth {want}")


def check_value(case, ctx):
    inst = case["inst"]
    world = World(inst, case["order"])
    planning = plans.build_planning(world, case)
    sims = simulated(case)
    if ambiguous(inst, sims):
        ctx.label("skipped: on-time within rounding")
        return
    objective = world.job.objective
    value = objective.optimization_function(planning)
    want = ref.planning_value(inst, sims)
    ensure(ref.close(tuple(value), tuple(want)), lambda: f"plan valued {value} under {inst['objective']}, definition gives {want}")
    by_vehicle = {r.vehicle.identifier: r for r in planning.routes}
    total = tuple(0 for _ in want)
    for vehicle, stops in sims:
        one = objective.optimization_function(by_vehicle[vehicle["id"]])
        ensure(ref.close(tuple(one), ref.planning_value(inst, [(vehicle, stops)])),
               lambda: f"route of {vehicle['id']} valued {one}, definition gives {ref.planning_value(inst, [(vehicle, stops)])}")
        total = tuple(a + b for a, b in zip(total, one))
        check_parts(inst, objective, by_vehicle[vehicle["id"]], vehicle, stops)
    ensure(ref.close(tuple(value), total), lambda: f"plan valued {value} but its routes sum to {total}")
    result = plans.make_result(world, planning)
    ensure(ref.close(tuple(result.optimization_value), tuple(want)), "a result is not valued as its plan")
    ensure(ref.close(tuple(objective.optimization_function(result)), tuple(want)), "a result is not valued as its plan")
    ensure(result.objective is objective and result.direction == jit.OptimizationDirection.MAXIMIZATION,
           "a result states another objective than its job's")
    served = sum(len(s["pickups"]) for _, stops in sims for s in stops)
    ctx.label(f"{inst['objective']}, {min(len(sims), 3)} routes")
    if inst["objective"] == "hash" and any(t["bonus"] for t in inst["trips"]):
        ctx.label("bonus at stake")
        trips = ref.trips_by_id(inst)
        for _, stops in sims:
            for s in stops:
                for t in s["pickups"]:
                    if trips[t]["bonus"] and abs(ref.tightened(inst, trips[t])[0] - s["departure"]) < 1e-9:
                        ctx.label("on time" if trips[t]["oe"] == s["departure"] else "on time by the delivery window")
    if any(t["cap"] == 0 for t in inst["trips"]):
        ctx.label("zero load")
    ctx.nontrivial(served >= 2)


@st.composite
def value_cases(draw):
    case = draw(plans.plan_case(trips=(0, 7), vehicles=(1, 4), gentle=draw(gen.half), merge=draw(gen.half), wants=True))
    for t in case["inst"]["trips"]:
        if draw(gen.rare):
            t["cap"] = 0
        if draw(gen.half):
            t["od"] = 0
        if draw(gen.half):
            t["bonus"] = draw(st.sampled_from([1, 5, 0.5]))
    if draw(gen.half):
        plans.punctual(draw, case["inst"], case["routes"])
    for r in case["routes"]:
        for s in r["stops"]:
            if draw(gen.rare):
                s["want"] = draw(st.integers(0, 60))
    case["order"] = draw(gen.orders)
    return case


# ---- choosing the best
def check_best(case, ctx):
    kind = case["kind"]
    if kind == "tuples":
        dims = case["dims"]
        objective = {1: jit.TaxiSharingObjective, 2: jit.DialARideObjective}[dims]()
        if dims == 1 and case["hash"]:
            objective = jit.HashCodeObjective()
        items = [None if v is None else tuple(v[:dims]) for v in case["values"]]
        values = [None if v is None else v for v in items]
    else:
        inst = case["inst"]
        world = World(inst, case["order"])
        objective = world.job.objective
        items, values = [], []
        for subset in case["subsets"]:
            if subset is None:
                items.append(None)
                values.append(None)
                continue
            routes = [r for r, keep in zip(case["routes"], subset) if keep]
            planning = plans.build_planning(world, {"routes": routes})
            if kind == "routes":
                if not routes:
                    items.append(None)
                    values.append(None)
                    continue
                items.append(next(iter(sorted(planning.routes, key=lambda r: r.vehicle.identifier))))
                routes = sorted(routes, key=lambda r: r["vehicle"])[:1]
            else:
                items.append(plans.make_result(world, planning) if kind == "results" else planning)
            sims = [plans.simulate(inst, r) for r in routes]
            if ambiguous(inst, sims):
                return
            values.append(tuple(ref.planning_value(inst, sims)))
    got = objective.best(*items)
    present = [v for v in values if v is not None]
    if not present:
        ensure(got is None, "something was chosen out of nothing")
        ctx.label("no candidates")
        return
    index = [i for i, x in enumerate(items) if x is got]
    ensure(bool(index) and got is not None, "the chosen candidate is not one of the candidates")
    chosen = values[index[0]]
    top = max(present)
    ensure(chosen >= top or ref.close(chosen, top),
           lambda: f"chose {chosen} although a candidate has {top} ({kind}, {type(objective).__name__})")
    ctx.label(kind)
    ctx.nontrivial(len({repr(v) for v in present}) >= 2)


@st.composite
def best_cases(draw):
    kind = draw(st.sampled_from(["tuples", "routes", "plans", "results"]))
    if kind == "tuples":
        number = st.one_of(st.integers(-5, 5), st.floats(-100, 100))
        return {"kind": kind, "dims": draw(st.integers(1, 2)), "hash": draw(gen.half),
                "values": draw(st.lists(st.one_of(st.none(), st.tuples(number, number).map(list)), max_size=6))}
    case = draw(plans.plan_case(trips=(0, 6), vehicles=(1, 3), merge=draw(gen.half), wants=True))
    n = len(case["routes"])
    case.update(kind=kind, order=draw(gen.orders), subsets=draw(st.lists(
        st.one_of(st.none(), *[st.lists(gen.half, min_size=n, max_size=n)] * 4), min_size=draw(st.sampled_from([0, 2, 2, 3])), max_size=4)))
    return case


TARGETS = [
    Target("value", value_cases(), check_value, 3000, 150000),
    Target("best", best_cases(), check_best, 1500, 60000),
]
