"""C28: local search ends at a plan that none of its moves improves."""
from hypothesis import strategies as st

import algos
import gen
import plans
import ref
from core import Target, ensure
from props.c08 import not_worse
from world import World, jit, snapshot

ID = "C28"
ORACLE = "every move of the strategy's neighbourhood from the final plan, simulated independently (route moves) or made with the route operations (reallocation)"
RULE = ("A case is a feasible plan without requested starting times, a set-iteration order, a strategy and a number of rounds without improvement. "
        "The local-search algorithm runs to its end and the whole neighbourhood of its plan is enumerated. Non-trivial: a feasible move exists there.")
ASSUMPTIONS = ["a move counts when it is worth 1e-6 (relative) more and its schedule violates no limit by more than 1e-9",
               "reallocation is judged for routes with at most 128 pairs of positions, which it tries exhaustively"]


def flips(visits):
    """Swaps of neighbouring stops."""
    for i in range(1, len(visits) - 2):
        if not set(visits[i]["pickups"]) & set(visits[i + 1]["deliveries"]):
            yield (i, i + 1), visits[:i] + [visits[i + 1], visits[i]] + visits[i + 2:]


def reversals(visits):
    """Reversed segments of three stops or more, or of all the stops from one on, which serve no trip wholly."""
    n = len(visits)
    for i in range(1, n - 1):
        for end in range(i + 1, n - 1):
            part = visits[i:end + 1]
            if len(part) < 3 and end != n - 2:
                continue
            whole = part + [visits[-1]] if end == n - 2 else part
            if set(t for s in whole for t in s["pickups"]) & set(t for s in whole for t in s["deliveries"]):
                continue
            yield (i, end), visits[:i] + part[::-1] + visits[end + 1:]


def better(new, old):
    return not_worse(new, old) and not ref.close(new, old)


def route_moves(world, result, moves, ctx):
    inst = world.inst
    found = False
    for route in result.routes:
        data = world.vehicle_data[route.vehicle.identifier]
        visits = [{"pos": s["pos"], "pickups": s["pickups"], "deliveries": s["deliveries"]} for s in snapshot(route)]
        value = ref.planning_value(inst, [(data, snapshot(route))])
        for where, moved in moves(visits):
            plan = ref.simulate(inst, data, moved)
            if ref.route_problems(inst, data, plan, tol=1e-9):
                continue
            found = True
            new = ref.planning_value(inst, [(data, plan)])
            ensure(not better(new, value), lambda: f"the search ended, and stops {where} of vehicle {data['id']} the other way round are worth {new} instead of {value}")
    return found


def reallocations(world, result, ctx):
    inst = world.inst
    strategy = jit.InsertionStrategy()
    value = lambda route: ref.planning_value(inst, [(world.vehicle_data[route.vehicle.identifier], snapshot(route))])
    routes = sorted(result.routes, key=lambda r: r.vehicle.identifier)
    found = False
    for origin in routes:
        for trip in sorted(origin.trips, key=lambda t: t.identifier):
            left = origin.clone()
            left.remove_trip(trip)
            left.flush()
            if not left.feasible:
                continue
            for destination in routes:
                n = len(destination.stops)
                if destination is origin or n * (n - 1) // 2 > 128:
                    continue
                old = [sum(v) for v in zip(value(origin), value(destination))]
                for i in range(n - 1):
                    for j in range(i + 1, n):
                        for made in strategy.compute(destination, trip, i, j):
                            found = True
                            new = [sum(v) for v in zip(value(left), value(made))]
                            ensure(not better(new, old), lambda: f"the search ended, and trip {trip.identifier} moved from vehicle {origin.vehicle.identifier} "
                                   f"to positions {i}, {j} of vehicle {destination.vehicle.identifier} gives {new} instead of {old}")
    return found


def check(case, ctx):
    inst = case["inst"]
    world = World(inst, case["order"])
    for r in case["routes"]:
        vehicle, plan = plans.simulate(inst, r)
        if ref.route_problems(inst, vehicle, plan, tol=1e-9):
            ctx.label("skipped: infeasible start")
            return
    name = case["strategy"]
    initial = plans.make_result(world, plans.build_planning(world, case))
    start = tuple(initial.optimization_value)
    kwargs = {} if case["threshold"] == 1 else {"no_improvement_threshold": case["threshold"]}
    if name != "reallocation" or case["given"]:
        kwargs["strategy_cls"] = algos.LOCAL[name]
    result = jit.LocalSearchAlgorithm(initial=initial, fleet=world.fleet, job=world.job, **kwargs).optimize()
    if name == "reallocation":
        found = reallocations(world, result, ctx)
    else:
        found = route_moves(world, result, flips if name == "one-shift" else reversals, ctx)
    changed = not ref.close(tuple(result.optimization_value), start)
    ctx.label(f"{name}: {'moves' if found else 'no move'} left, {'improved' if changed else 'kept'}")
    ctx.nontrivial(found)


@st.composite
def searches(draw):
    return {"order": draw(gen.orders), "strategy": draw(st.sampled_from(sorted(algos.LOCAL))), "given": draw(gen.half),
            "threshold": draw(st.integers(1, 3))}


@st.composite
def plan_cases(draw, metric=None):
    case = draw(plans.plan_case(metric=metric, trips=(1, 7), vehicles=draw(st.sampled_from([(1, 3), (1, 3), (2, 5)])), idle=draw(gen.rare), merge=draw(gen.rare)))
    case.update(draw(searches()))
    return case


@st.composite
def line_cases(draw):
    """Long routes with wide limits, in which many moves are possible."""
    n = draw(st.integers(4, 7))
    inst = draw(gen.instance(trips=(n, n), vehicles=(1, 2), objective=draw(st.sampled_from(["dial", "dial", "taxi", "hash"]))))
    for v in inst["vehicles"]:
        v.update(ol=None, dl=None, timeout=None, cap=n)
    for t in inst["trips"]:
        t.update(ol=None, dl=None, timeout=None, cap=1)
    cut = draw(st.integers(0, n)) if len(inst["vehicles"]) > 1 and draw(gen.half) else n
    ids = [t["id"] for t in inst["trips"]]
    routes = []
    for v, part in zip(inst["vehicles"], (ids[:cut], ids[cut:])):
        order = [("P", t) for t in part] + [("D", t) for t in draw(st.permutations(part))] if draw(gen.half) else draw(plans.visit_order(part))
        routes.append({"vehicle": v["id"], "stops": plans.to_stops(inst, order, False)})
    case = {"inst": inst, "routes": routes}
    case.update(draw(searches()))
    return case


TARGETS = [Target("plans", plan_cases(), check, 1500, 60000), Target("wide", line_cases(), check, 900, 40000)]
