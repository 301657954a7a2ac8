"""C07: insertion construction extends its start, keeps what it accepted, and is maximal."""
import math

from hypothesis import strategies as st

import algos
import gen
import plans
import ref
from core import Target, ensure
from props.c06 import spliced, visit_list
from world import World, jit, snapshot

ID = "C07"
ORACLE = "history of accepted candidates; spliced visit lists simulated independently and re-enumerated exhaustively"
RULE = ("A case is an instance, a set-iteration order, an insertion configuration and optionally a start (hand-made plan, or one built by a "
        "restricted insertion). Every accepted candidate is recorded. Non-trivial: at least two trips are accepted, or a start with served trips is extended.")
ASSUMPTIONS = ["an accepted candidate is what the iterator hands out, in order",
               "among several empty vehicles only one needs to be considered; empty routes are judged only when all vehicles are alike"]


def order_of(route):
    """(kind, trip) visits of a route, in driving order."""
    out = []
    for s in route.stops:
        out += [("D", t) for t in sorted(p.trip.identifier for p in s.delivery_planned_trips)]
        out += [("P", t) for t in sorted(p.trip.identifier for p in s.pickup_planned_trips)]
    return out


def served(route):
    return sorted(t.identifier for t in route.trips)


def kept_order(before, after):
    kept = set(before)
    return [v for v in after if v in kept] == before


def run(world, cfg, initial):
    accepted = []
    base = algos.ITERATORS[cfg["iterator"]]

    class Recorder(base):
        def __next__(self):
            route = super().__next__()
            accepted.append((route, order_of(route), visit_list(route)))
            return route

    kwargs = {**algos.insertion_kwargs(cfg), "iterator_cls": Recorder}
    if initial is not None:
        kwargs["initial"] = initial
    result = jit.InsertionAlgorithm(fleet=world.fleet, job=world.job, **kwargs).optimize()
    return result, accepted


def homogeneous(inst):
    return len({repr(sorted((k, v) for k, v in x.items() if k != "id")) for x in inst["vehicles"]}) == 1


def insertable(world, route, trip):
    """A position pair at which the trip fits in the route as it is scheduled now, or None."""
    inst = world.inst
    vehicle = world.vehicle_data[route.vehicle.identifier]
    now = snapshot(route)
    n = len(now)
    base = [{"pos": s["pos"], "pickups": s["pickups"], "deliveries": s["deliveries"], "want": s["start"]} for s in now]
    pickup = {"pos": tuple(trip["o"]), "pickups": [trip["id"]], "deliveries": []}
    delivery = {"pos": tuple(trip["d"]), "pickups": [], "deliveries": [trip["id"]]}
    for i in range(n - 1):
        for j in range(i + 1, n):
            visits = base[:i + 1] + [pickup] + base[i + 1:j] + [delivery] + base[j:]
            plan = ref.simulate(inst, vehicle, visits)
            if not ref.route_problems(inst, vehicle, plan, tol=1e-9):
                return i, j
    return None


def candidates(routes, trips):
    strategy = jit.IntensiveInsertionStrategy()
    return [c for r in routes for c in strategy.compute(r, list(trips))] if trips else []


def check(case, ctx):
    inst = case["inst"]
    world = World(inst, case["order"])
    initial = None
    if case["start"] == "plan":
        initial = plans.make_result(world, plans.build_planning(world, case))
    elif case["start"] == "built":
        initial = jit.InsertionAlgorithm(fleet=world.fleet, job=world.job, **algos.insertion_kwargs(case["first"])).optimize()
    cfg = case["cfg"]
    starts = {}
    if initial is not None:
        starts = {r.vehicle.identifier: (r, order_of(r)) for r in initial.routes}
    result, accepted = run(world, cfg, initial)
    if cfg.get("only_feasible") is False and accepted and not accepted[-1][0].feasible:
        accepted.pop()                      # infeasible candidates are looked at too; the first one ends the construction
        ctx.label("ended at an infeasible candidate")
    name = cfg["iterator"]
    ctx.label(f"{name}, start {case['start']}")

    # one route per vehicle it was given
    vehicles = [r.vehicle.identifier for r in result.routes]
    want = sorted(starts) if initial is not None else sorted(v["id"] for v in inst["vehicles"])
    ensure(sorted(vehicles) == want, lambda: f"routes of vehicles {sorted(vehicles)}, started with {want}")

    # the start, extended by the accepted candidates one after another
    state = {v: o for v, (_, o) in starts.items()}
    for v in want:
        state.setdefault(v, [])
    objects = {v: (starts[v][0] if v in starts else jit.Route(world.vehicles[v])) for v in want}
    pending = {t["id"] for t in inst["trips"]} - {t for v in state for _, t in state[v]}
    alike = homogeneous(inst)
    full = case["full"]
    criterion = algos.CRITERIA[cfg["criterion"] or "EarliestLastDepartureTimeRouteCriterion"]()
    sign = 1 if criterion.direction is jit.OptimizationDirection.MINIMIZATION else -1
    for number, (route, visits, shape) in enumerate(accepted):
        v = route.vehicle.identifier
        ensure(v in state, f"a route of vehicle {v}, which was not given, is accepted")
        ensure(visit_list(route) == shape, f"accepted candidate {number + 1} is edited later on")
        ensure(kept_order(state[v], visits), lambda: f"vehicle {v} served {state[v]}, and {visits} once candidate {number + 1} is accepted")
        new = {t for _, t in visits} - {t for _, t in state[v]}
        ensure(len(new) == 1 and new <= pending, lambda: f"candidate {number + 1} adds trips {sorted(new)}, pending {sorted(pending)}")
        ensure(len(visits) == len(state[v]) + 2, "a candidate adds more than a pickup and a delivery")
        ensure(route.feasible, "an infeasible candidate is accepted")
        if full and name in ("ranking", "best"):
            routes = [r for r in objects.values() if any(r.planned_trips)]
            empties = [r for r in objects.values() if not any(r.planned_trips)]
            if alike:
                routes += empties[:1]
            score = criterion.scoring(route)
            for c in candidates(routes, [world.trips[t] for t in sorted(pending)]):
                other = criterion.scoring(c)
                ensure(sign * score <= sign * other + 1e-6 * max(1, abs(other)),
                       lambda: f"accepted candidate {number + 1} scores {score}, {served(c)} on vehicle {c.vehicle.identifier} scores {other}")
            ctx.label("greedy steps")
        state[v] = visits
        objects[v] = route
        pending -= new
    for r in result.routes:
        v = r.vehicle.identifier
        ensure(order_of(r) == state[v], lambda: f"vehicle {v} ends with {order_of(r)}, accepted on the way {state[v]}")
        ensure(served(r) == sorted({t for _, t in state[v]}), "the route's trips are not the ones its stops serve")

    # nothing that still fits is left over
    if full:
        routes = [r for r in result.routes if any(r.planned_trips)]
        empties = sorted((r for r in result.routes if not any(r.planned_trips)), key=lambda r: r.vehicle.identifier)
        if alike:
            routes += empties[:1]
        for t in sorted(pending):
            for r in routes:
                if starts and not kept_feasible(world, r):
                    continue
                spot = insertable(world, r, world.trip_data[t])
                ensure(spot is None, lambda: f"trip {t} still fits on vehicle {r.vehicle.identifier} at {spot}")
                left = candidates([r], [world.trips[t]])
                ensure(not left, lambda: f"trip {t} still fits on vehicle {r.vehicle.identifier}: {visit_list(left[0])}")
        if not alike and empties and pending:
            open_ = [r for r in empties if not candidates([r], [world.trips[t] for t in sorted(pending)])]
            ensure(open_, lambda: f"every empty vehicle could still take one of the trips {sorted(pending)}")
        ctx.label("complete" if not pending else "left over")
    ctx.label("accepted", len(accepted))
    ctx.nontrivial(len(accepted) >= 2 or (accepted and any(o for _, o in starts.values())))


def kept_feasible(world, route):
    data = world.vehicle_data[route.vehicle.identifier]
    return not ref.route_problems(world.inst, data, snapshot(route), tol=1e-9)


@st.composite
def full_insertion(draw):
    cfg = draw(algos.insertion(full=True))
    cfg["strategy"] = draw(st.sampled_from(["intensive", "intensive", "sampling", None]))
    if cfg["iterator"] == "ranking":
        cfg["neighborhood_max_size"] = draw(st.sampled_from([None, None, 24]))
    return cfg


@st.composite
def cases(draw):
    start = draw(st.sampled_from(["none", "none", "plan", "built"]))
    full = draw(gen.half) or draw(gen.half)
    if start == "plan":
        case = draw(plans.plan_case(trips=(1, 6), vehicles=(1, 3), merge=draw(gen.half), wants=True))
    else:
        case = {"inst": draw(gen.instance(trips=(0, 6), vehicles=(1, 3), zero_cap=draw(gen.rare),
                                          tight=draw(st.sampled_from([None, None, 0, 1]))))}
    if start == "built":
        case["first"] = draw(algos.insertion())
        if draw(gen.half):
            case["first"].update(strategy="tail")
    case.update(start=start, full=full, order=draw(gen.orders), cfg=draw(full_insertion() if full else algos.insertion()))
    return case


@st.composite
def spread_cases(draw):
    """A fleet of like vehicles and trips of which hardly two fit on one vehicle."""
    metric = draw(st.sampled_from(["manhattan", "euclidean"]))
    base = {"o": [0, 0], "oe": 0, "ol": None, "d": None, "de": 0, "dl": None, "cap": draw(st.integers(1, 3)), "timeout": draw(st.sampled_from([None, None, 60]))}
    vs = [dict(base, id=str(i)) for i in range(draw(st.integers(3, 9)))]
    ts = []
    for i in range(draw(st.integers(3, 9))):
        x, y = draw(st.integers(-9, 9)), draw(st.sampled_from([-1, 1]))
        o = [x, y * (9 - abs(x))]
        far = ref.dist(metric, [0, 0], o)
        late = math.ceil(far) + draw(st.sampled_from([0, 0, 1, 6]))
        ts.append({"id": str(i), "o": o, "d": draw(gen.coords(9)), "oe": 0, "ol": late, "od": draw(st.sampled_from([0, 0, 2])), "de": 0, "dl": None,
                   "dd": 0, "cap": 1, "timeout": None, "bonus": 0})
    full = draw(gen.half) or draw(gen.half)
    return {"inst": {"metric": metric, "objective": "dial", "vehicles": vs, "trips": ts}, "start": "none", "full": full, "order": draw(gen.orders),
            "cfg": draw(full_insertion() if full else algos.insertion())}


TARGETS = [Target("construction", cases(), check, 3000, 80000), Target("spread", spread_cases(), check, 300, 8000)]
