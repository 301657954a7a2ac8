"""C04: schedules always reflect the current stops, after any edit history."""
from hypothesis import strategies as st

import gen
import plans
import ref
from core import Target, ensure
from props.c03 import stop_verdict, verdicts
from world import World, jit

ID = "C04"
ORACLE = "edit histories against a from-scratch schedule simulation"
RULE = ("A case is one vehicle, 1-6 trips and a history of 3-30 operations on its route: insert a trip at two positions, "
        "remove a trip, insert or remove a stop without trips, also at the ends, replace the first stop, serve a trip by stops already made or from the first stop, request a start time, continue on a copy, "
        "refresh, and reads of single quantities in between (shared: from a route whose stops may serve several trips). After each checkpoint and at the end every reported quantity "
        "is compared with a simulation of the current visits. Non-trivial: at least one edit happens after a read.")
ASSUMPTIONS = ["a requested start time is followed by a refresh of the route, as every caller in the library does",
               "feasibility verdicts within 2e-3 of a limit are skipped"]
TOL = 1e-6


def near(a, b):
    return a == b or abs(a - b) <= TOL


class Model:
    def __init__(self, world, vid):
        self.world, self.inst = world, world.inst
        self.vehicle = next(v for v in self.inst["vehicles"] if v["id"] == vid)
        self.real_vehicle = world.vehicles[vid]
        self.stops = [self.stop(ref.depot_origin(self.vehicle)), self.stop(ref.depot_destination(self.vehicle))]

    @staticmethod
    def stop(pos, p=(), d=()):
        return {"pos": tuple(pos), "pickups": list(p), "deliveries": list(d), "want": None}

    def served(self):
        return [t for s in self.stops for t in s["pickups"]]

    def plan(self):
        return ref.simulate(self.inst, self.vehicle, self.stops)


def compare(model, route):
    plan = model.plan()
    ensure(len(route.stops) == len(plan), lambda: f"route has {len(route.stops)} stops, expected {len(plan)}")
    shown = [(sorted(p.trip.identifier for p in s.pickup_planned_trips),
              sorted(p.trip.identifier for p in s.delivery_planned_trips)) for s in route.stops]
    want = [(sorted(s["pickups"]), sorted(s["deliveries"])) for s in plan]
    ensure(shown == want, lambda: f"visits are {shown}, expected {want}")
    previous = None
    for i, (s, e) in enumerate(zip(route.stops, plan)):
        ensure(s.previous is previous, lambda: f"stop {i} does not follow stop {i - 1}")
        previous = s
        load_time = e["departure"] - e["start"]
        for name, got, exp in (
            ("position", s.position.coordinates, e["pos"]),
            ("arrival", s.arrival_time, e["arrival"]), ("start", s.starting_time, e["start"]),
            ("departure", s.departure_time, e["departure"]), ("waiting", s.waiting_time, e["waiting"]),
            ("service time", s.load_time, load_time), ("load", s.capacity, e["load"]),
            ("distance", s.distance, e["distance"]), ("travel time", s.transit_time, e["drive"]),
        ):
            same = tuple(got) == tuple(exp) if name == "position" else near(got, exp)
            ensure(same, lambda: f"stop {i} reports {name} {got}, a fresh computation gives {exp}")
        a, b = stop_verdict(model.inst, model.vehicle, e, 1e-9), stop_verdict(model.inst, model.vehicle, e, 2e-3)
        ensure(a != b or bool(s.feasible) == a, lambda: f"stop {i} reports feasible={s.feasible}, expected {a}")
    pick = {t: i for i, s in enumerate(plan) for t in s["pickups"]}
    drop = {t: i for i, s in enumerate(plan) for t in s["deliveries"]}
    trips = ref.trips_by_id(model.inst)
    seen, rides = [], 0.0
    for p in route.planned_trips:
        t = p.trip.identifier
        seen.append(t)
        i, j = pick[t], drop[t]
        ensure(p.pickup is route.stops[i] and p.delivery is route.stops[j],
               lambda: f"planned trip {t} points to other stops than the ones visited")
        ride = plan[j]["start"] - plan[i]["departure"]
        rides += ride
        for name, got, exp in (
            ("pickup time", p.pickup_time, plan[i]["departure"]), ("delivery time", p.delivery_time, plan[j]["start"]),
            ("duration", p.duration, ride),
            ("waiting", p.waiting_time, sum(s["waiting"] for s in plan[i + 1:j + 1])),
            ("travel", p.transit_time, sum(s["drive"] for s in plan[i + 1:j + 1])),
            ("service", p.load_time, plan[i]["departure"] - plan[i]["start"] + plan[j]["departure"] - plan[j]["start"]),
        ):
            ensure(near(got, exp), lambda: f"planned trip {t} reports {name} {got}, a fresh computation gives {exp}")
        res = [stop_verdict(model.inst, model.vehicle, plan[i], tol) and stop_verdict(model.inst, model.vehicle, plan[j], tol)
               and ride <= ref.inf(trips[t]["timeout"]) + tol for tol in (1e-9, 2e-3)]
        ensure(res[0] != res[1] or bool(p.feasible) == res[0],
               lambda: f"planned trip {t} reports feasible={p.feasible}, expected {res[0]}")
    ensure(sorted(seen) == sorted(pick), lambda: f"route lists trips {seen}, visits pick up {sorted(pick)}")
    for name, got, exp in (
        ("distance", route.distance, sum(s["distance"] for s in plan)),
        ("duration", route.duration, plan[-1]["departure"] - plan[0]["departure"]),
        ("waiting time", route.waiting_time, sum(s["waiting"] for s in plan)),
        ("riding time", route.transit_time, rides),
        ("first departure", route.first_departure_time, plan[0]["departure"]),
        ("last departure", route.last_departure_time, plan[-1]["departure"]),
        ("current departure", route.current_departure_time, plan[-2]["departure"]),
        ("current arrival", route.current_arrival_time, plan[-2]["arrival"]),
    ):
        ensure(near(got, exp), lambda: f"route reports {name} {got}, a fresh computation gives {exp}")
    ensure(bool(route.loaded) == bool(pick), "loaded flag")
    ensure(sorted(t.identifier for t in route.loaded_trips) == sorted(t for t in pick if trips[t]["cap"] != 0),
           "loaded trips")
    strict, loose = verdicts(model.inst, model.vehicle, plan)
    if bool(strict) == bool(loose):
        ensure(bool(route.feasible) == (not strict),
               lambda: f"route reports feasible={route.feasible}, a fresh computation says "
                       f"{strict[0][2] if strict else 'feasible'}")
    return not strict


READS = [
    lambda r, i: r.feasible,
    lambda r, i: r.duration,
    lambda r, i: r.distance,
    lambda r, i: r.last_departure_time,
    lambda r, i: r.waiting_time,
    lambda r, i: r.stops[i % len(r.stops)].arrival_time,
    lambda r, i: r.stops[i % len(r.stops)].departure_time,
    lambda r, i: r.stops[i % len(r.stops)].capacity,
    lambda r, i: r.stops[i % len(r.stops)].feasible,
    lambda r, i: r.stops[i % len(r.stops)].starting_time,
    lambda r, i: [p.feasible for p in r.planned_trips],
    lambda r, i: [p.duration for p in r.planned_trips],
    lambda r, i: [s.feasible for s in r.stops],
    lambda r, i: (r.feasible, [s.capacity for s in r.stops]),
]


def apply(op, model, route, ctx):
    """Applies one operation to both; returns the route to continue on and whether it was an edit."""
    kind, a, b, c = op
    world, inst = model.world, model.inst
    n = len(model.stops)
    if kind == "read":
        READS[a % len(READS)](route, b)
        return route, False
    if kind == "check":
        compare(model, route)
        return route, False
    if kind == "insert":
        served = set(model.served())
        rest = [t["id"] for t in inst["trips"] if t["id"] not in served]
        if not rest:
            return route, None
        t = rest[a % len(rest)]
        trip = world.trips[t]
        i = b % (n - 1)                             # pickup follows stop i
        j = i + c % (n - 1 - i)                     # delivery follows stop j (j == i: right after the pickup)
        pickup = jit.Stop(model.real_vehicle, trip.origin_position, route.stops[i])
        delivery = jit.Stop(model.real_vehicle, trip.destination_position, pickup if j == i else route.stops[j])
        route.append_planned_trip(jit.PlannedTrip(model.real_vehicle, trip, pickup, delivery))
        data = world.trip_data[t]
        model.stops.insert(j + 1, model.stop(data["d"], d=[t]))
        model.stops.insert(i + 1, model.stop(data["o"], p=[t]))
        return route, True
    if kind == "remove":
        served = model.served()
        if not served:
            return route, None
        t = served[a % len(served)]
        route.remove_trip(world.trips[t])
        for i, s in list(enumerate(model.stops)):
            if t in s["pickups"] + s["deliveries"]:
                s["pickups"], s["deliveries"] = [[x for x in s[k] if x != t] for k in ("pickups", "deliveries")]
                if i in (0, n - 1):
                    ctx.label("removed from an end")
                elif not s["pickups"] + s["deliveries"]:
                    model.stops = [x for x in model.stops if x is not s]
                else:
                    ctx.label("removed from a shared stop")
        return route, True
    if kind in ("join", "depart"):      # a trip served by stops the route already makes, or from its very first stop
        served = set(model.served())
        fits = []
        for t in sorted(x["id"] for x in inst["trips"] if x["id"] not in served):
            o, d = tuple(world.trip_data[t]["o"]), tuple(world.trip_data[t]["d"])
            if kind == "depart":
                idle = not model.stops[0]["pickups"] and not model.stops[0]["deliveries"]
                fits += [(t, j) for j in range(n - 1) if idle and o == tuple(ref.depot_origin(model.vehicle))]
            else:
                fits += [(t, i, j) for j in range(n) for i in range(j)
                         if model.stops[i]["pos"] == o and model.stops[j]["pos"] == d]
        if not fits:
            return route, None
        t, *where = fits[a % len(fits)]
        trip = world.trips[t]
        if kind == "depart":
            j = where[0]
            pickup = jit.Stop(model.real_vehicle, trip.origin_position, None)
            delivery = jit.Stop(model.real_vehicle, trip.destination_position, route.stops[j] if j else pickup)
            route.append_planned_trip(jit.PlannedTrip(model.real_vehicle, trip, pickup, delivery))
            model.stops[0] = model.stop(ref.depot_origin(model.vehicle), p=[t])
            model.stops.insert(j + 1, model.stop(world.trip_data[t]["d"], d=[t]))
        else:
            i, j = where
            jit.PlannedTrip(model.real_vehicle, trip, route.stops[i], route.stops[j])
            route.flush()
            model.stops[i]["pickups"].append(t)
            model.stops[j]["deliveries"].append(t)
        return route, True
    if kind == "extend":
        pos = [b % 17 - 8, c % 17 - 8]
        if b % 2:
            route.insert_stop(jit.Stop(model.real_vehicle, world.pos(pos), route.stops[-1]))
        else:
            route.insert_stop_at(n, jit.Stop(model.real_vehicle, world.pos(pos), route.stops[-1]))
        model.stops.append(model.stop(pos))
        return route, True
    if kind == "cut":
        i = 0 if a % 2 else n - 1
        if n < 3 or model.stops[i]["pickups"] or model.stops[i]["deliveries"]:
            return route, None
        stop = route.stops[i]
        ensure(route.remove_stop_at(i) is stop, "removing a stop returned another one")
        model.stops.pop(i)
        return route, True
    if kind == "waypoint":
        i = 1 + a % (n - 1)
        pos = [b % 17 - 8, c % 17 - 8]
        stop = jit.Stop(model.real_vehicle, world.pos(pos), route.stops[i - 1])
        if (b + c) % 2:
            route.insert_stop(stop)
        else:
            route.insert_stop_at(i, stop)
        model.stops.insert(i, model.stop(pos))
        return route, True
    if kind == "unwaypoint":
        idle = [i for i in range(1, n - 1) if not model.stops[i]["pickups"] and not model.stops[i]["deliveries"]]
        if not idle:
            return route, None
        i = idle[a % len(idle)]
        removed = route.remove_stop_at(i)
        ensure(not list(removed.planned_trips), "removing a stop returned another one")
        model.stops.pop(i)
        return route, True
    if kind == "first":
        if model.stops[0]["pickups"] or model.stops[0]["deliveries"]:
            return route, None
        route.insert_stop(jit.Stop(model.real_vehicle, model.real_vehicle.origin_position, None))
        model.stops[0] = model.stop(ref.depot_origin(model.vehicle))
        return route, True
    if kind == "start":
        i = a % n
        want = b % 90
        stop = route.stops[i]
        arrival, earliest, latest, load = stop.arrival_time, stop.earliest, stop.latest, stop.load_time
        if c & 2:
            stop.feasible
        stop.starting_time = want
        # what the stop itself reports follows at once; the stops after it follow when the route is refreshed
        begin = max(want, arrival, earliest)
        ensure(ref.close(stop.starting_time, begin) and ref.close(stop.departure_time, begin + load),
               lambda: f"stop {i} asked to start at {want} reports {stop.starting_time} to {stop.departure_time}, not {begin} + {load}")
        if begin > latest + 2e-3:
            ensure(not stop.feasible, lambda: f"stop {i} asked to start at {want}, after {latest}, reports itself feasible")
        model.stops[i]["want"] = want
        if c % 2:
            route.flush()
        else:
            for stop in route.stops[i:]:
                stop.flush()
            route.flush()
        return route, True
    if kind == "clone":
        return route.clone(a % (n + 1)), True
    if kind == "flush":
        route.flush()
        return route, False
    raise AssertionError(kind)


def check(case, ctx):
    world = World(case["inst"], case["order"])
    model = Model(world, "0")
    if "route" in case:
        route = plans.build_route(world, case["route"])
        model.stops = [dict(s) for s in plans.visits(world.inst, case["route"])[1]]
    else:
        route = jit.Route(model.real_vehicle)
    read, interesting, edits = False, False, 0
    for op in case["ops"]:
        route, edit = apply(op, model, route, ctx)
        if edit is None:
            continue
        ctx.label(op[0])
        if edit:
            edits += 1
            interesting |= read
        elif op[0] != "flush":
            read = True
    feasible = compare(model, route)
    # and a route freshly assembled from the same visits agrees
    ctx.label("ends feasible" if feasible else "ends infeasible")
    ctx.nontrivial(interesting)


number = st.integers(0, 40)


def op(*kinds):
    return st.tuples(st.sampled_from(kinds), number, number, number).map(list)


operations = op("read", "read", "read", "insert", "insert", "insert", "remove", "waypoint", "unwaypoint", "first",
                "start", "clone", "clone", "check", "flush", "join", "depart", "extend", "cut")


@st.composite
def cases(draw):
    inst = draw(gen.instance(trips=(1, 6), vehicles=(1, 1), zero_cap=True))
    for t in inst["trips"]:         # some trips from and to the depots
        if draw(gen.rare):
            t["o"] = list(ref.depot_origin(inst["vehicles"][0]))
        if draw(gen.rare):
            t["d"] = list(ref.depot_destination(inst["vehicles"][0]))
    if draw(gen.half):
        inst["vehicles"][0]["timeout"] = draw(st.integers(20, 120))
    first = [draw(op("insert"))] if draw(gen.half) else []
    return {"inst": inst, "order": draw(gen.orders), "ops": first + draw(st.lists(operations, min_size=3, max_size=30))}


@st.composite
def shared_cases(draw):
    """Histories that begin with a route some of whose stops serve several trips."""
    case = draw(plans.route_case(trips=(2, 6), merge=True))
    return dict(case, order=draw(gen.orders), ops=draw(st.lists(operations, min_size=3, max_size=20)))


TARGETS = [
    Target("history", cases(), check, 3000, 150000),
    Target("shared", shared_cases(), check, 1200, 60000),
]
