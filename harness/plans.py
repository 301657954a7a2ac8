"""Generated routes and plans: plain descriptions, and their jinete counterparts.

A route description is {"vehicle": id, "stops": [{"P": [trip ids], "D": [trip ids], "want": number|None}, ...]};
the depot stops are implied. A stop with several trips requires them to share the position. With "ends", a first or last
stop at the depot is the depot stop itself.
"""
import json
import math
import sys
from contextlib import contextmanager
from random import Random

from hypothesis import strategies as st

import gen
import ref

half = gen.half


def stop_position(inst, stop):
    trips = ref.trips_by_id(inst)
    if stop["P"]:
        return tuple(trips[stop["P"][0]]["o"])
    return tuple(trips[stop["D"][0]]["d"])


def visits(inst, route):
    """Full visit list (depots included) of a route description, as ref.simulate expects it."""
    vehicle = next(v for v in inst["vehicles"] if v["id"] == route["vehicle"])
    stops = [{"pos": stop_position(inst, s), "pickups": sorted(s["P"]), "deliveries": sorted(s["D"]), "want": s.get("want")}
             for s in route["stops"]]
    first = {"pos": ref.depot_origin(vehicle), "pickups": [], "deliveries": [], "want": route.get("want0")}
    last = {"pos": ref.depot_destination(vehicle), "pickups": [], "deliveries": [], "want": route.get("want1")}
    if route.get("ends") and len(stops) > 1:
        if tuple(stops[0]["pos"]) == tuple(first["pos"]):
            first = stops.pop(0)
        if tuple(stops[-1]["pos"]) == tuple(last["pos"]):
            last = stops.pop()
    return vehicle, [first, *stops, last]


def simulate(inst, route):
    vehicle, vs = visits(inst, route)
    return vehicle, ref.simulate(inst, vehicle, vs)


def build_route(world, route):
    """The real route of a description, built stop by stop with the public constructors."""
    from world import jit

    vehicle = world.vehicles[route["vehicle"]]
    stops, pickups = [], {}
    described = visits(world.inst, route)[1]
    for i, s in enumerate(described):
        position = world.pos(s["pos"])
        if i == 0:
            position = vehicle.origin_position
        elif i == len(described) - 1:
            position = vehicle.destination_position
        stop = jit.Stop(vehicle, position, stops[-1] if stops else None, starting_time=s["want"])
        for t in s["pickups"]:
            pickups[t] = stop
        for t in s["deliveries"]:
            jit.PlannedTrip(vehicle, world.trips[t], pickups[t], stop)
        stops.append(stop)
    return jit.Route(vehicle, stops)


@st.composite
def visit_order(draw, ids, nested=None):
    """A random interleaving of pickups and deliveries with every pickup before its delivery."""
    pending, open_, out = list(ids), [], []
    mode = draw(st.integers(0, 3)) if nested is None else nested
    while pending or open_:
        if mode == 0:
            pick = not open_                                # back to back
        elif not open_:
            pick = True
        elif not pending:
            pick = False
        else:
            pick = draw(half)
        if pick:
            t = pending.pop(draw(st.integers(0, len(pending) - 1)))
            open_.append(t)
            out.append(("P", t))
        else:
            t = open_.pop(draw(st.integers(0, len(open_) - 1)))
            out.append(("D", t))
    return out


def to_stops(inst, order, merge):
    """Stops out of visits; with merge, consecutive visits of one kind ("mixed": any kind) at a position share a stop."""
    trips = ref.trips_by_id(inst)
    stops = []
    for kind, t in order:
        pos = tuple(trips[t]["o"] if kind == "P" else trips[t]["d"])
        if merge and stops:
            last = stops[-1]
            same = stop_position(inst, last) == pos
            clash = t in last["P"] or t in last["D"]
            if same and not clash and (merge == "mixed" or not last["D" if kind == "P" else "P"]):
                last[kind].append(t)
                continue
        stops.append({"P": [t] if kind == "P" else [], "D": [t] if kind == "D" else [], "want": None})
    return stops


def through_ends(draw, vehicle, trips, order):
    """Makes the first and last visits happen at the depots, sometimes."""
    if order and draw(half):
        trips[order[0][1]]["o"] = list(ref.depot_origin(vehicle))
    if order and draw(half):
        trips[order[-1][1]]["d"] = list(ref.depot_destination(vehicle))


MERGES = st.sampled_from([False, False, True, "mixed"])
SLACKS = [None, None, None, 0, 0, 1, 4, 15, -1, -2, -6, -0.05, -0.4]
GENTLE = [None, None, 0, 1, 4, 15, 40]


def request(draw, vehicle, route):
    """Requests start times at some stops."""
    for s in route["stops"]:
        if draw(gen.rare):
            s["want"] = draw(st.integers(0, 80))
    if draw(gen.rare):
        route["want0"] = vehicle["oe"] + draw(st.integers(0, 20))


@st.composite
def route_case(draw, trips=(0, 5), slacks=tuple(SLACKS), wants=True, merge=True, metric=None, objective=None,
               span=8, uniform_service=False):
    """An instance with one vehicle and one route over all its trips, whose limits are drawn around the schedule the
    visit order produces (so that every limit is often just met or just missed)."""
    metric = metric or draw(st.sampled_from(["manhattan", "euclidean"]))
    n = draw(st.integers(*trips))
    v = draw(gen.vehicle("0", span=span))
    v.update(ol=None, dl=None, timeout=None)
    ts = []
    cluster = draw(half)
    spots = [draw(gen.coords(span)) for _ in range(3)] if cluster else None
    for i in range(n):
        t = draw(gen.trip(str(i), metric, span=span, mixed_service=not uniform_service, zero_cap=True))
        if cluster:
            t["o"] = list(draw(st.sampled_from(spots)))
            t["d"] = list(draw(st.sampled_from(spots)))
        if uniform_service:
            t["od"] = t["dd"] = 2
        t.update(ol=None, dl=None, timeout=None)
        if draw(half):
            t["oe"] = 0
        if draw(half):
            t["de"] = 0
        ts.append(t)
    inst = {"metric": metric, "objective": objective or draw(st.sampled_from(["dial", "taxi", "hash"])),
            "vehicles": [v], "trips": ts}
    order = draw(visit_order([t["id"] for t in ts]))
    ends = bool(merge) and (draw(gen.rare) or draw(gen.rare))
    if ends:
        through_ends(draw, v, ref.trips_by_id(inst), order)
    route = {"vehicle": "0", "stops": to_stops(inst, order, merge and draw(MERGES))}
    if ends:
        route["ends"] = True
    if wants:
        request(draw, v, route)
    calibrate(draw, inst, route, slacks, 1 if ends and draw(half) else None)
    return {"inst": inst, "route": route}


def _near(draw, value, slacks, low=None, up=True):
    slack = draw(st.sampled_from(slacks))
    if slack is None:
        return None
    value = (math.ceil(value) if up and value != int(value) else value) + slack
    if low is not None:
        value = max(value, low)
    return value


def calibrate(draw, inst, route, slacks, focus=None):
    """Sets limits around the values the schedule reaches; a handful of limits at a time."""
    vehicle = next(v for v in inst["vehicles"] if v["id"] == route["vehicle"])
    trips = ref.trips_by_id(inst)
    _, plan = simulate(inst, route)
    if focus is None:
        focus = draw(st.integers(0, 7))     # 0: everything; otherwise a few kinds, so that single limits decide often
    if focus in (0, 1):
        value = _near(draw, plan[-1]["departure"], slacks, low=vehicle["oe"])
        vehicle["ol" if vehicle["d"] is None else "dl"] = value
    if focus in (0, 2):
        vehicle["timeout"] = _near(draw, plan[-1]["departure"] - plan[0]["departure"], slacks, low=0)
    if focus in (0, 3):
        peak = max(s["load"] for s in plan)
        vehicle["cap"] = max(0, draw(st.sampled_from([peak - 1, peak, peak, peak + 1, peak + 3, peak - 0.04, peak - 0.4, math.floor(peak)])))
    else:
        vehicle["cap"] = max(vehicle["cap"], max(s["load"] for s in plan))
    pick = {t: s for s in plan for t in s["pickups"]}
    drop = {t: s for s in plan for t in s["deliveries"]}
    for t in pick:
        far = ref.direct(inst, trips[t])
        if focus in (0, 4):
            trips[t]["ol"] = _near(draw, pick[t]["start"], slacks, low=trips[t]["oe"])
        if focus in (0, 5):
            trips[t]["dl"] = _near(draw, drop[t]["start"], slacks, low=max(trips[t]["de"], math.ceil(far)))
        if focus in (0, 6):
            trips[t]["timeout"] = _near(draw, drop[t]["start"] - pick[t]["departure"], slacks, low=math.ceil(far))
    if focus == 7 and pick:             # exactly one limit of one trip
        t = draw(st.sampled_from(sorted(pick)))
        far = ref.direct(inst, trips[t])
        which = draw(st.integers(0, 2))
        if which == 0:
            trips[t]["ol"] = _near(draw, pick[t]["start"], slacks, low=trips[t]["oe"])
        elif which == 1:
            trips[t]["dl"] = _near(draw, drop[t]["start"], slacks, low=max(trips[t]["de"], math.ceil(far)))
        else:
            trips[t]["timeout"] = _near(draw, drop[t]["start"] - pick[t]["departure"], slacks, low=math.ceil(far))


def calibrate_rides(inst, route, ids, slack):
    """Limits the rides of some trips to what they take in this route, rounded up, plus a slack."""
    trips = ref.trips_by_id(inst)
    _, plan = simulate(inst, route)
    for t in ids:
        ride = next(s["start"] for s in plan if t in s["deliveries"]) - next(s["departure"] for s in plan if t in s["pickups"])
        trips[t]["timeout"] = max(math.ceil(ride), math.ceil(ref.direct(inst, trips[t]))) + slack


@st.composite
def plan_case(draw, trips=(0, 7), vehicles=(1, 3), objective=None, metric=None, gentle=True, idle=True, merge=False,
              span=8, wants=False):
    """An instance and a plan over it: some trips assigned to vehicles in random interleavings, limits drawn around
    the schedules (gentle: so that the plan stays mostly feasible)."""
    metric = metric or draw(st.sampled_from(["manhattan", "euclidean"]))
    inst = draw(gen.instance(trips=trips, vehicles=vehicles, metric=metric, objective=objective, span=span,
                             zero_cap=draw(gen.rare)))
    vs = inst["vehicles"]
    for v in vs:
        v.update(ol=None, dl=None, timeout=None)
    for t in inst["trips"]:
        t.update(ol=None, dl=None, timeout=None)
    groups = {v["id"]: [] for v in vs}
    for t in inst["trips"]:
        where = draw(st.integers(0, len(vs))) if idle else draw(st.integers(0, len(vs) - 1))
        if where < len(vs):
            groups[vs[where]["id"]].append(t["id"])
    routes = []
    for v in vs:
        ids = groups[v["id"]]
        if not ids and draw(half):
            continue
        order = draw(visit_order(ids))
        ends = bool(merge) and draw(gen.rare)
        if ends:
            through_ends(draw, v, ref.trips_by_id(inst), order)
        routes.append({"vehicle": v["id"], "stops": to_stops(inst, order, merge and draw(MERGES))})
        if ends:
            routes[-1]["ends"] = True
        if wants and draw(gen.rare):
            request(draw, v, routes[-1])
    if draw(half):
        for r in routes:
            calibrate(draw, inst, r, GENTLE if gentle else SLACKS)
    else:
        for r in routes:
            _, plan = simulate(inst, r)
            vehicle = next(v for v in vs if v["id"] == r["vehicle"])
            vehicle["cap"] = max(vehicle["cap"], max(s["load"] for s in plan))
    return {"inst": inst, "routes": routes}


NAMES = st.one_of(st.none(), st.tuples(st.sampled_from(["1", "100200", "request-", "\u00e9t\u00e9_"]), st.sampled_from(["", "cab no. ", "v:"])).map(list))


def rename(case, names):
    """Other names for vehicles and trips (names are free text)."""
    if names is None:
        return case
    text = json.loads(json.dumps(case))
    inst = text["inst"]
    new = {t["id"]: names[0] + t["id"] for t in inst["trips"]}
    for t in inst["trips"]:
        t["id"] = new[t["id"]]
    cars = {v["id"]: names[1] + v["id"] for v in inst["vehicles"]}
    for v in inst["vehicles"]:
        v["id"] = cars[v["id"]]
    for r in text.get("routes", ()):
        r["vehicle"] = cars[r["vehicle"]]
        for s in r["stops"]:
            s["P"], s["D"] = [new[t] for t in s["P"]], [new[t] for t in s["D"]]
    return text


@contextmanager
def plain_stack():
    """As many free stack frames as an ordinary program has (the test driver allows for more)."""
    depth, frame = 0, sys._getframe()
    while frame is not None:
        depth, frame = depth + 1, frame.f_back
    kept = sys.getrecursionlimit()
    sys.setrecursionlimit(depth + 980)
    try:
        yield
    finally:
        sys.setrecursionlimit(kept)


@st.composite
def long_cases(draw, trips=(40, 300)):
    """The parameters of a long route (see long_route)."""
    return {"n": draw(st.integers(*trips)), "seed": draw(st.integers(0, 2 ** 16)), "open": draw(st.sampled_from([1, 2, 4, 60, 500])),
            "metric": draw(st.sampled_from(["manhattan", "euclidean"])), "windows": draw(half), "through": draw(half),
            "limit": draw(st.sampled_from([None, None, "ol", "dl", "timeout", "cap", "end"])), "slack": draw(st.sampled_from([-1, 0, 1]))}


def long_route(case):
    """A route over many trips, of which up to `open` ride at once; one limit is drawn around the schedule."""
    rng = Random(case["seed"])
    coords = lambda: [rng.randint(-8, 8), rng.randint(-8, 8)]
    trips = [{"id": str(i), "o": coords(), "d": coords(), "oe": rng.randint(0, 12 * i) if case["windows"] and rng.random() < 0.3 else 0,
              "ol": None, "od": rng.choice([0, 0, 1, 2]), "de": 0, "dl": None, "dd": rng.choice([0, 0, 1, 3]),
              "cap": 1, "timeout": None, "bonus": 0} for i in range(case["n"])]
    vehicle = {"id": "0", "o": coords(), "oe": 0, "ol": None, "d": None, "de": 0, "dl": None, "cap": 1, "timeout": None}
    inst = {"metric": case["metric"], "objective": "dial", "vehicles": [vehicle], "trips": trips}
    pending, riding, order = [t["id"] for t in trips][::-1], [], []
    if case["through"]:                     # the first trip rides from the first stop to the last
        through = pending.pop()
        order.append(("P", through))
    while pending or riding:
        if pending and (not riding or len(riding) < case["open"] and rng.random() < 0.7):
            riding.append(pending.pop())
            order.append(("P", riding[-1]))
        else:
            order.append(("D", riding.pop(rng.randrange(len(riding)))))
    if case["through"]:
        order.append(("D", through))
    route = {"vehicle": "0", "stops": to_stops(inst, order, False)}
    _, plan = simulate(inst, route)
    peak = max(s["load"] for s in plan)
    vehicle["cap"] = peak + (min(case["slack"], 0) if case["limit"] == "cap" else 0)
    some = rng.choice(trips)
    pick = next(s for s in plan if some["id"] in s["pickups"])
    drop = next(s for s in plan if some["id"] in s["deliveries"])
    if case["limit"] == "end":
        vehicle["ol"] = plan[-1]["departure"] + case["slack"]
    elif case["limit"] == "ol":
        some["ol"] = max(some["oe"], pick["start"] + case["slack"])
    elif case["limit"] == "dl":
        some["dl"] = max(drop["start"] + case["slack"], ref.direct(inst, some))
    elif case["limit"] == "timeout":
        some["timeout"] = max(drop["start"] - pick["departure"] + case["slack"], ref.direct(inst, some))
    return {"inst": inst, "route": route}


def punctual(draw, inst, routes):
    """Opens some pickup windows around the time the vehicle comes by, also by way of the delivery window."""
    trips = ref.trips_by_id(inst)
    for r in routes:
        _, plan = simulate(inst, r)
        for s in plan:
            for t in s["pickups"]:
                one = trips[t]
                way = draw(st.integers(0, 4))
                at = max(0, math.ceil(s["start"] - 1e-9)) + draw(st.sampled_from([-1, 0, 0, 0, 1, 4]))
                if way in (1, 2) and at >= 0:
                    one["oe"] = at
                elif way in (3, 4) and at >= 0:
                    one["oe"] = 0
                    if one["timeout"] is None:
                        one["timeout"] = math.ceil(ref.direct(inst, one)) + draw(st.sampled_from([0, 3, 10]))
                    one["de"] = at + one["od"] + one["timeout"]
                    if one["dl"] is not None:
                        one["dl"] = max(one["dl"], one["de"])
                if one["ol"] is not None:
                    one["ol"] = max(one["ol"], one["oe"])


def build_planning(world, case):
    from world import jit

    return jit.Planning(set(build_route(world, r) for r in case["routes"]))


def make_result(world, planning, fleet=None, job=None, seconds=0.0):
    """A result holding a given planning, through the public Algorithm interface."""
    from world import jit

    class FixedAlgorithm(jit.Algorithm):
        def _optimize(self):
            return planning

    return FixedAlgorithm(fleet=fleet or world.fleet, job=job or world.job).optimize()
