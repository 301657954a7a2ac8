"""C11: route criteria score and rank routes by their documented quantity."""
from hypothesis import strategies as st

import algos
import gen
import plans
import ref
from core import Target, ensure
from world import World, jit

ID = "C11"
ORACLE = "documented quantities computed on an independently simulated schedule; ranking laws"
RULE = ("A case is 1-6 routes of one instance (feasible and infeasible, idle ones, on time and late) and a criterion; the route's "
        "score is compared with its quantity and best / sorted / nbest with the scores. Non-trivial: at least two routes with "
        "different scores.")
ASSUMPTIONS = ["routes whose verdict depends on the comparison tolerance, and bonuses within rounding of the earliest time, are skipped"]
MIN = {"EarliestLastDepartureTimeRouteCriterion", "ShortestAveragePlannerTripDurationCriterion", "ShortestTimeRouteCriterion"}


def quantity(name, inst, stops):
    trips = ref.trips_by_id(inst)
    pick = {t: s for s in stops for t in s["pickups"]}
    drop = {t: s for s in stops for t in s["deliveries"]}
    if name == "EarliestLastDepartureTimeRouteCriterion":
        return stops[-1]["departure"]
    if name in ("ShortestTimeRouteCriterion", "LongestTimeRouteCriterion"):
        return stops[-1]["departure"] - stops[0]["departure"]
    if name == "ShortestAveragePlannerTripDurationCriterion":
        if not pick:
            return 0
        return sum(drop[t]["start"] - pick[t]["departure"] for t in pick) / len(pick)
    total = 0.0
    for t in pick:
        total += ref.dist(inst["metric"], trips[t]["o"], trips[t]["d"])
        if name == "HashCodeRouteCriterion":
            gap = pick[t]["departure"] - ref.tightened(inst, trips[t])[0]
            if gap == 0:
                total += trips[t]["bonus"]
            elif abs(gap) < 1e-6:
                return None
    return total


def check(case, ctx):
    inst = case["inst"]
    world = World(inst, case["order"])
    name = case["criterion"]
    criterion = algos.CRITERIA[name]()
    worst = ref.INF if name in MIN else -ref.INF
    sign = 1 if name in MIN else -1
    routes, scores = [], []
    for desc in case["routes"]:
        vehicle, stops = plans.simulate(inst, desc)
        if bool(ref.route_problems(inst, vehicle, stops, tol=1e-9)) != bool(ref.route_problems(inst, vehicle, stops, tol=2e-3)):
            continue
        feasible = not ref.route_problems(inst, vehicle, stops, tol=1e-9)
        value = quantity(name, inst, stops)
        if value is None:
            continue
        routes.append(plans.build_route(world, desc))
        scores.append(value if feasible else worst)
        got = criterion.scoring(routes[-1])
        ensure(ref.close(got, scores[-1]), lambda: f"{name} scores {got} a {'feasible' if feasible else 'infeasible'} route "
                                                   f"whose quantity is {value}")
        ctx.label("feasible" if feasible else "infeasible")
    by_id = {id(r): s for r, s in zip(routes, scores)}
    keys = sorted(sign * s for s in scores)

    def keyed(rs):
        return [sign * by_id[id(r)] for r in rs]

    # best, with missing candidates
    items = list(routes)
    for i in case["gaps"]:
        items.insert(i % (len(items) + 1), None)
    best = criterion.best(*items)
    if not routes:
        ensure(best is None, "something was chosen out of nothing")
    else:
        ensure(id(best) in by_id, "best returns something that was not given")
        ensure(ref.close(sign * by_id[id(best)], keys[0]), lambda: f"{name}: best has {by_id[id(best)]}, {sign * keys[0]} was available")
    # sorted
    given = list(routes) if case["as_list"] else tuple(routes)
    ordered = criterion.sorted(given)
    ensure(sorted(map(id, ordered)) == sorted(map(id, routes)), "sorting loses or adds routes")
    ensure(ref.close(tuple(keyed(ordered)), tuple(keys)), lambda: f"{name}: sorted as {keyed(ordered)} (sign {sign})")
    ensure(list(map(id, given)) == list(map(id, routes)), "sorting changed the given sequence")
    inplace = list(routes)
    back = criterion.sorted(inplace, inplace=True)
    ensure(back is inplace and ref.close(tuple(keyed(inplace)), tuple(keys)), f"{name}: in-place sorting")
    # n best
    n = case["n"]
    top = criterion.nbest(n, iter(routes) if case["lazy"] else routes)
    ensure(len({id(r) for r in top}) == len(top) == min(n, len(routes)) and all(id(r) in by_id for r in top),
           lambda: f"{name}: {len(top)} of {len(routes)} routes for n={n}")
    ensure(ref.close(tuple(keyed(top)), tuple(keys[:len(top)])), lambda: f"{name}: {n} best have {keyed(top)}, all {keys} (sign {sign})")
    ctx.label(name)
    ctx.nontrivial(len({round(k, 6) for k in keys}) >= 2)


@st.composite
def cases(draw, metric=None):
    case = draw(plans.plan_case(metric=metric, trips=(0, 7), vehicles=(1, 4), gentle=draw(gen.half), merge=draw(gen.half), wants=True))
    inst = case["inst"]
    # alternative routes of the same vehicles
    routes = list(case["routes"])
    for v in inst["vehicles"]:
        for _ in range(draw(st.integers(0, 2))):
            ids = draw(st.lists(st.sampled_from([t["id"] for t in inst["trips"]]), max_size=4, unique=True)) if inst["trips"] else []
            routes.append({"vehicle": v["id"], "stops": plans.to_stops(inst, draw(plans.visit_order(ids)), False)})
    for t in inst["trips"]:
        if draw(gen.half):
            t["od"] = 0
        if draw(gen.half):
            t["bonus"] = draw(st.sampled_from([1, 5, 0.5]))
        if draw(gen.rare):
            t["cap"] = 0
    for r in routes:
        if draw(gen.rare):
            r["want0"] = draw(st.integers(0, 40))
    return {"inst": inst, "routes": routes, "order": draw(gen.orders), "criterion": draw(st.sampled_from(sorted(algos.CRITERIA))),
            "gaps": draw(st.lists(st.integers(0, 9), max_size=2)), "as_list": draw(gen.half), "lazy": draw(gen.half),
            "n": draw(st.integers(0, 7))}


TARGETS = [Target("criteria", cases(), check, 4000, 200000)]
