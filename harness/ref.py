"""Reference semantics of the dial-a-ride model, written on plain data only (no jinete import).

Conventions
  instance  dict: metric, vehicles[], trips[], objective
  vehicle   dict: id, o=[x,y], oe, ol, d=[x,y]|None, de, dl, cap, timeout       (None = +infinity)
  trip      dict: id, o=[x,y], d=[x,y], oe, ol, od, de, dl, dd, cap, timeout, bonus
  visit     tuple (kind, trip id): kind is "P" or "D"
"""
import math

INF = float("inf")
TOL = 1e-3      # tolerance the library documents for its own comparisons (ERROR_BOUND)
EPS = 1e-6      # float noise


def inf(v):
    return INF if v is None else v


def dist(metric, a, b):
    """Distance driven from a to b. A metric that is a dict is a space of its own: going east costs more than back, or is the only way (a loop)."""
    if isinstance(metric, dict):
        steps = [q - p for p, q in zip(a, b)]
        if metric.get("loop"):
            steps[0] %= metric["loop"]
        elif steps[0] > 0:
            steps[0] *= metric["east"]
        return dist(metric["base"], steps, [0] * len(steps))
    if metric == "manhattan":
        return sum(abs(p - q) for p, q in zip(a, b))
    if metric == "euclidean":
        return math.sqrt(sum((p - q) ** 2 for p, q in zip(a, b)))
    raise ValueError(metric)


def drive(metric, a, b, now=None):
    """Time it takes from a to b, leaving at a given time (the least possible without one)."""
    if not isinstance(metric, dict):
        return dist(metric, a, b)
    time = dist(metric, a, b) * metric["pace"]
    if now is not None and metric["rush"]:
        period, length, factor = metric["rush"]
        if now % period < length:
            time *= factor
    return time


def longest(metric, a, b):
    """Time it takes from a to b at the worst moment."""
    return drive(metric, a, b) * (metric["rush"][2] if isinstance(metric, dict) and metric["rush"] else 1)


def direct(inst, t):
    """Least riding time of a trip."""
    return drive(inst["metric"], t["o"], t["d"])


def depot_origin(v):
    return tuple(v["o"])


def depot_destination(v):
    return tuple(v["o"] if v.get("d") is None else v["d"])


def depot_latest(v):
    return inf(v["ol"] if v.get("d") is None else v["dl"])


def tightened(inst, t):
    """Time windows of a trip after the (sound and complete) pairing tightening."""
    far = direct(inst, t)
    oe = max(t["oe"], t["de"] - t["od"] - inf(t["timeout"]))
    ol = min(inf(t["ol"]), inf(t["dl"]) - t["od"] - far)
    de = max(t["de"], t["oe"] + t["od"] + far)
    dl = min(inf(t["dl"]), inf(t["ol"]) + t["od"] + inf(t["timeout"]))
    return oe, ol, de, dl


def trips_by_id(inst):
    return {t["id"]: t for t in inst["trips"]}


# ---------------------------------------------------------------------------------------------
# Validity predicate over an explicit schedule (a snapshot taken from the real objects)
# ---------------------------------------------------------------------------------------------
def route_problems(inst, vehicle, stops, tol=TOL + EPS, structure=True, feasibility=True):
    """All the ways in which an explicit route schedule is not an executable service of its trips.

    `stops` is a list of dicts: pos, pickups [trip ids], deliveries [trip ids], start, departure.
    Returns a list of (kind, excess, message); kind "structure" or "feasible".
    """
    trips = trips_by_id(inst)
    out = []

    def bad(kind, excess, msg):
        out.append((kind, excess, msg))

    metric = inst["metric"]
    first, last = stops[0], stops[-1]
    # ---- structure
    picked, dropped = {}, {}
    for i, s in enumerate(stops):
        for t in s["pickups"]:
            if t not in trips:
                bad("structure", INF, f"stop {i} picks up unknown trip {t}")
                continue
            if t in picked:
                bad("structure", INF, f"trip {t} is picked up twice in the route")
            picked[t] = i
            if tuple(trips[t]["o"]) != tuple(s["pos"]):
                bad("structure", INF, f"trip {t} is picked up at {s['pos']}, not at its origin {trips[t]['o']}")
        for t in s["deliveries"]:
            if t not in trips:
                bad("structure", INF, f"stop {i} delivers unknown trip {t}")
                continue
            if t in dropped:
                bad("structure", INF, f"trip {t} is delivered twice in the route")
            dropped[t] = i
            if tuple(trips[t]["d"]) != tuple(s["pos"]):
                bad("structure", INF, f"trip {t} is delivered at {s['pos']}, not at its destination {trips[t]['d']}")
    for t in picked:
        if t not in dropped:
            bad("structure", INF, f"trip {t} is picked up but never delivered")
        elif not picked[t] < dropped[t]:
            bad("structure", INF, f"trip {t} is delivered (stop {dropped[t]}) before its pickup (stop {picked[t]})")
    for t in dropped:
        if t not in picked:
            bad("structure", INF, f"trip {t} is delivered but never picked up")
    if any(k == "structure" for k, _, _ in out):
        return out

    def over(excess, msg):
        if excess > tol:
            bad("feasible", excess, msg)

    # ---- depot
    if tuple(first["pos"]) != depot_origin(vehicle):
        bad("feasible", INF, "route does not start at the vehicle's origin")
    if tuple(last["pos"]) != depot_destination(vehicle):
        bad("feasible", INF, "route does not end at the vehicle's destination")
    over(vehicle["oe"] - first["start"], "vehicle leaves before its availability")
    over(last["departure"] - depot_latest(vehicle), "vehicle finishes after its latest time")
    over((last["departure"] - first["departure"]) - inf(vehicle["timeout"]), "route lasts longer than the vehicle allows")
    # ---- driving and service times
    load = 0
    for i, s in enumerate(stops):
        service = max([trips[t]["od"] for t in s["pickups"]] + [trips[t]["dd"] for t in s["deliveries"]], default=0)
        over(s["start"] + service - s["departure"], f"stop {i} departs before its service is done")
        if i:
            prev = stops[i - 1]
            over(prev["departure"] + drive(metric, prev["pos"], s["pos"], prev["departure"]) - s["start"],
                 f"stop {i} starts before the vehicle can get there")
        for t in s["pickups"]:
            over(trips[t]["oe"] - s["start"], f"pickup of trip {t} starts before its window")
            over(s["start"] - inf(trips[t]["ol"]), f"pickup of trip {t} starts after its window")
        for t in s["deliveries"]:
            over(trips[t]["de"] - s["start"], f"delivery of trip {t} starts before its window")
            over(s["start"] - inf(trips[t]["dl"]), f"delivery of trip {t} starts after its window")
        load += sum(trips[t]["cap"] for t in s["pickups"]) - sum(trips[t]["cap"] for t in s["deliveries"])
        if s["pickups"] or s["deliveries"]:
            over(load - vehicle["cap"], f"stop {i} leaves with load {load} over capacity {vehicle['cap']}")
    for t, i in picked.items():
        ride = stops[dropped[t]]["start"] - stops[i]["departure"]
        over(ride - inf(trips[t]["timeout"]), f"trip {t} rides {ride}, longer than it allows")
    return out


def borderline(problems_strict, problems_loose):
    """A verdict is borderline when it depends on the exact tolerance chosen."""
    return bool(problems_strict) != bool(problems_loose)


# ---------------------------------------------------------------------------------------------
# Forward simulation
# ---------------------------------------------------------------------------------------------
def simulate(inst, vehicle, visits):
    """Schedule of a route given its stops, each with an optional requested starting time.

    `visits`: list of dicts pos, pickups, deliveries, want (None or number).
    """
    trips = trips_by_id(inst)
    metric = inst["metric"]
    out = []
    prev_dep, prev_pos, load = vehicle["oe"], depot_origin(vehicle), 0
    for s in visits:
        arrival = prev_dep + drive(metric, prev_pos, s["pos"], prev_dep)
        earliest, latest, service = 0.0, INF, 0.0
        for t in s["pickups"]:
            oe, ol, _, _ = tightened(inst, trips[t])
            earliest, latest, service = max(earliest, oe), min(latest, ol), max(service, trips[t]["od"])
        for t in s["deliveries"]:
            _, _, de, dl = tightened(inst, trips[t])
            earliest, latest, service = max(earliest, de), min(latest, dl), max(service, trips[t]["dd"])
        start = max(arrival, earliest)
        if s.get("want") is not None:
            start = max(start, s["want"])
        load += sum(trips[t]["cap"] for t in s["pickups"]) - sum(trips[t]["cap"] for t in s["deliveries"])
        out.append({
            "pos": tuple(s["pos"]), "pickups": list(s["pickups"]), "deliveries": list(s["deliveries"]),
            "arrival": arrival, "start": start, "departure": start + service, "load": load,
            "distance": dist(metric, prev_pos, s["pos"]), "drive": drive(metric, prev_pos, s["pos"], prev_dep), "waiting": start - arrival,
        })
        prev_dep, prev_pos = start + service, tuple(s["pos"])
    return out


def route_distance(inst, vehicle, stops):
    prev = depot_origin(vehicle)
    total = 0.0
    for s in stops:
        total += dist(inst["metric"], prev, s["pos"])
        prev = s["pos"]
    return total


# ---------------------------------------------------------------------------------------------
# Objectives on explicit schedules
# ---------------------------------------------------------------------------------------------
def planning_value(inst, routes):
    """routes: list of (vehicle, stops). Value per the objective's definition."""
    trips = trips_by_id(inst)
    kind = inst["objective"]
    if kind == "dial":
        return (
            sum(len(s["pickups"]) for _, stops in routes for s in stops),
            -sum(route_distance(inst, v, stops) for v, stops in routes),
        )
    total = 0.0
    for _, stops in routes:
        pick = {t: s for s in stops for t in s["pickups"]}
        drop = {t: s for s in stops for t in s["deliveries"]}
        for t in pick:
            trip = trips[t]
            if trip["cap"] == 0:
                continue
            if kind == "taxi":
                total += drop[t]["start"] - pick[t]["departure"]
            elif kind == "hash":
                total += dist(inst["metric"], trip["o"], trip["d"])
                oe = tightened(inst, trip)[0]
                if oe == pick[t]["departure"]:
                    total += trip["bonus"]
            else:
                raise ValueError(kind)
    return (total,)


def close(a, b, tol=EPS):
    """Numbers, or tuples of numbers, equal up to float noise."""
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def same(a, b, tol=EPS):
    """Nested plain values equal up to float noise in their numbers."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not (isinstance(a, bool) or isinstance(b, bool)):
        return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b
