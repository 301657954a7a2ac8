"""C27: insertion refuses a position only when that order of visits cannot be driven."""
from random import Random

from hypothesis import strategies as st

import gen
import plans
import ref
from core import Target, ensure
from props.c06 import spliced, visit_list
from world import World, jit, snapshot

ID = "C27"
ORACLE = "earliest schedule of every spliced visit order, by fixpoint of its difference constraints (pickups delayed until every ride limit holds)"
RULE = ("A case is a feasible route (hand-made, or grown by accepted insertions) of a vehicle without limit on its working time, one or two further trips, "
        "and every pair of positions. Non-trivial: at some position a pickup has to be delayed for a ride limit to hold, or a position is refused.")
ASSUMPTIONS = ["stops are not moved before the times the route had them at", "verdicts that depend on 2e-3 of a limit are not compared"]


def earliest(inst, vehicle, visits, tol):
    """Earliest starting times of an order of visits, not before its `want`s, under every limit (relaxed by tol); None if there are none.
    The vehicle is available from its origin earliest on."""
    trips = ref.trips_by_id(inst)
    n = len(visits)
    low, high, service, load = [], [], [], 0
    for s in visits:
        lo, hi, du = s["want"] if s.get("want") is not None else 0.0, ref.INF, 0.0
        for t in s["pickups"]:
            oe, ol, _, _ = ref.tightened(inst, trips[t])
            lo, hi, du = max(lo, oe), min(hi, ol), max(du, trips[t]["od"])
            load += trips[t]["cap"]
        for t in s["deliveries"]:
            _, _, de, dl = ref.tightened(inst, trips[t])
            lo, hi, du = max(lo, de), min(hi, dl), max(du, trips[t]["dd"])
            load -= trips[t]["cap"]
        if (s["pickups"] or s["deliveries"]) and load > vehicle["cap"] + tol:
            return None
        low.append(lo), high.append(hi), service.append(du)
    low[0] = max(low[0], vehicle["oe"])
    drives = [ref.drive(inst["metric"], a["pos"], b["pos"]) for a, b in zip(visits, visits[1:])]
    pick = {t: i for i, s in enumerate(visits) for t in s["pickups"]}
    rides = [(pick[t], j, ref.inf(trips[t]["timeout"])) for j, s in enumerate(visits) for t in s["deliveries"]]
    at = list(low)
    for _ in range(n + len(rides) + 2):
        for i in range(1, n):
            at[i] = max(at[i], at[i - 1] + service[i - 1] + drives[i - 1])
        moved = False
        for i, j, limit in rides:
            want = at[j] - limit - service[i] - tol
            if want > at[i] + 1e-12:
                at[i], moved = want, True
        if not moved:
            break
        if any(a > h + tol for a, h in zip(at, high)):
            return None
    else:
        return None
    if any(a > h + tol for a, h in zip(at, high)) or at[-1] + service[-1] > ref.depot_latest(vehicle) + tol:
        return None
    return at


def check(case, ctx):
    inst = case["inst"]
    world = World(inst, case["order"])
    data = inst["vehicles"][0]
    new = [t for t in inst["trips"] if t["id"].startswith("n")]
    route = plans.build_route(world, case["route"])
    for k in case["grow"]:
        options = [c for c in jit.IntensiveInsertionStrategy().compute(route, world.trips[new[0]["id"]])]
        if not options or len(new) < 2:
            break
        new.pop(0)
        options.sort(key=lambda r: visit_list(r))
        route = options[k % len(options)]
        ctx.label("grown")
    if ref.route_problems(inst, data, snapshot(route), tol=1e-9):
        ctx.label("start not feasible")
        return
    now = snapshot(route)
    base = [{"pos": s["pos"], "pickups": s["pickups"], "deliveries": s["deliveries"], "want": s["start"]} for s in now]
    shape = visit_list(route)
    n = len(base)
    interesting = False
    for t in new:
        kept = {visit_list(c): c for c in jit.IntensiveInsertionStrategy().compute(route, world.trips[t["id"]])}
        for i in range(n - 1):
            for j in range(i + 1, n):
                visits = (base[:i + 1] + [{"pos": tuple(t["o"]), "pickups": [t["id"]], "deliveries": []}] + base[i + 1:j]
                          + [{"pos": tuple(t["d"]), "pickups": [], "deliveries": [t["id"]]}] + base[j:])
                candidate = kept.get(spliced(shape, t, i, j))
                strict, loose = earliest(inst, data, visits, 0), earliest(inst, data, visits, 2e-3)
                if (strict is None) != (loose is None):
                    continue
                if strict is None:
                    interesting = True
                    ctx.label("refused")
                    ensure(candidate is None, lambda: f"trip {t['id']} is put at positions {i}, {j}, where it cannot be served")
                    continue
                plain = ref.simulate(inst, data, visits)
                delayed = any(a > p["start"] + 1e-6 for a, p in zip(strict, plain))
                interesting |= delayed
                ctx.label("pickup delayed" if delayed else "fits as driven")
                ensure(candidate is not None, lambda: f"trip {t['id']} is refused at positions {i}, {j} of {shape}, where starting the stops at {strict} serves everybody")
                if all(x["timeout"] is None for x in inst["trips"]):
                    wait = candidate.stops[1].waiting_time
                    ensure(abs(wait) <= 1e-6, lambda: f"the vehicle leaves early and waits {wait} at its first visit")
                    ctx.label("no early departure")
    ctx.nontrivial(interesting)


@st.composite
def cases(draw, spaces=None):
    case = draw(plans.route_case(trips=(0, 4), metric=draw(spaces) if spaces is not None else None, slacks=tuple(plans.GENTLE), wants=False, uniform_service=False, merge=draw(gen.half)))
    inst = case["inst"]
    vehicle = inst["vehicles"][0]
    vehicle["timeout"] = None
    if any(len(s["P"]) + len(s["D"]) > 1 for s in case["route"]["stops"]):
        for t in inst["trips"]:
            t["od"] = 2
    grow = draw(st.lists(st.integers(0, 40), max_size=3))
    for i in range(len(grow) + draw(st.integers(1, 2))):
        t = draw(gen.trip(f"n{i}", inst["metric"]))
        if draw(gen.half):
            t.update(ol=None, dl=None)
        t["timeout"] = draw(st.sampled_from([None, 0, 1, 3, 8]))
        if t["timeout"] is not None:
            t["timeout"] += int(ref.direct(inst, t)) + 1
        inst["trips"].append(t)
    if draw(gen.half):
        vehicle["cap"] += 3
    if draw(gen.half):
        vehicle.update(ol=None, dl=None)
        for t in inst["trips"]:
            t.update(ol=None, dl=None)
            if t["id"].startswith("n"):
                t["oe"] = draw(st.integers(0, 60))
    case.update(order=draw(gen.orders), grow=grow)
    return case


@st.composite
def together(draw):
    """Trips that board together, whose rides an inserted visit holds up."""
    metric = draw(st.sampled_from(["manhattan", "euclidean"]))
    vehicle = draw(gen.vehicle("0", span=8))
    vehicle.update(ol=None, dl=None, timeout=None, cap=9, oe=0)
    spots = [draw(gen.coords(8)) for _ in range(draw(st.integers(1, 2)))]
    trips = []
    for i in range(draw(st.integers(2, 4))):
        trips.append({"id": str(i), "o": list(draw(st.sampled_from(spots))), "d": draw(gen.coords(8)), "oe": draw(st.sampled_from([0, 0, 5])), "ol": None,
                      "od": 1, "de": 0, "dl": None, "dd": draw(st.integers(0, 2)), "cap": 1, "timeout": None, "bonus": 0})
    inst = {"metric": metric, "objective": "dial", "vehicles": [vehicle], "trips": trips}
    order = draw(plans.visit_order([t["id"] for t in trips], 2))
    if draw(gen.half):
        order = [("P", t["id"]) for t in trips] + [v for v in order if v[0] == "D"]
    route = {"vehicle": "0", "stops": plans.to_stops(inst, order, True)}
    _, plan = plans.simulate(inst, route)
    pick = {t: s for s in plan for t in s["pickups"]}
    for s in plan:
        for t in s["deliveries"]:
            slack = draw(st.sampled_from([None, 0, 1, 3, 9, 20]))
            if slack is not None:
                trips[int(t)]["timeout"] = int(s["start"] - pick[t]["departure"]) + 1 + slack
    grow = draw(st.lists(st.integers(0, 40), max_size=2))
    for i in range(len(grow) + 1):
        t = draw(gen.trip(f"n{i}", metric))
        t.update(oe=draw(st.integers(0, 50)), ol=None, od=0, de=draw(st.sampled_from([0, 0, 40])), dl=None, timeout=None, cap=1)
        inst["trips"].append(t)
    return {"inst": inst, "route": route, "order": draw(gen.orders), "grow": grow}


def chain(number, metric=None):
    """Overlapping rides with little slack, and a visit that opens late somewhere along them."""
    rng = Random(number)
    spot = lambda: [rng.randint(-6, 6), rng.randint(-6, 6)]
    vehicle = {"id": "0", "o": spot(), "oe": 0, "ol": None, "d": None, "de": 0, "dl": None, "cap": 9, "timeout": None}
    trips = [{"id": str(i), "o": spot(), "d": spot(), "oe": 0, "ol": None, "od": rng.choice([0, 0, 1]), "de": 0, "dl": None, "dd": rng.choice([0, 0, 1]),
              "cap": 1, "timeout": None, "bonus": 0} for i in range(rng.randint(2, 5) if rng.random() < 0.95 else 9)]
    own = rng.choice(["manhattan", "euclidean"])
    inst = {"metric": metric or own, "objective": "dial", "vehicles": [vehicle], "trips": trips}
    order, riding, pending = [], [], [t["id"] for t in trips]
    while pending or riding:
        if pending and (not riding or len(riding) < 3 and rng.random() < 0.6):
            riding.append(pending.pop(0))
            order.append(("P", riding[-1]))
        else:
            order.append(("D", riding.pop(0 if rng.random() < 0.7 else -1)))
    route = {"vehicle": "0", "stops": plans.to_stops(inst, order, rng.random() < 0.2)}
    _, plan = plans.simulate(inst, route)
    pick = {t: s for s in plan for t in s["pickups"]}
    for s in plan:
        for t in s["deliveries"]:
            if rng.random() < 0.8:
                trips[int(t)]["timeout"] = int(s["start"] - pick[t]["departure"]) + rng.choice([1, 1, 2, 4, 8])
            if rng.random() < 0.1:
                trips[int(t)]["ol"] = int(pick[t]["start"]) + rng.choice([1, 10, 30])
    some = rng.choice(plan)
    late = int(some["start"]) + rng.randint(0, 30)
    grown = rng.random() < 0.2
    for k in range(1 + grown):
        new = {"id": f"n{k}", "o": spot(), "d": spot(), "oe": late if rng.random() < 0.7 else 0, "ol": None, "od": rng.choice([0, 1]),
               "de": late if rng.random() < 0.5 else 0, "dl": None, "dd": 0, "cap": 1, "timeout": rng.choice([None, None, 6, 15]), "bonus": 0}
        if new["timeout"] is not None:
            new["timeout"] += int(ref.direct(inst, new)) + 1
        inst["trips"].append(new)
    if rng.random() < 0.2:
        vehicle["ol"] = int(plan[-1]["departure"]) + rng.randint(1, 40)
    if rng.random() < 0.3:
        vehicle["cap"] = max(s["load"] for s in plan) + rng.choice([0, 1])
    return {"inst": inst, "route": route, "order": number, "grow": [rng.randrange(40)] if grown else []}


def check_chain(case, ctx):
    check(chain(case["number"]), ctx)


TARGETS = [Target("positions", cases(), check, 1200, 60000), Target("together", together(), check, 1000, 60000),
           Target("chains", st.integers(0, 2 ** 32).map(lambda n: {"number": n}), check_chain, 1500, 80000)]
