"""C26: descriptions and views state the object's own current data and change nothing."""
from hypothesis import strategies as st

import gen
import plans
import ref
from core import Target, ensure
from props import c04
from props.c05 import picture
from world import World, jit

ID = "C26"
ORACLE = "descriptions and views compared with the generating data, and described objects with twins never described"
RULE = ("requests: an instance with whole, fractional and missing limits and any names. plan: a plan (shared stops, requested start times, "
        "idle routes) described next to a twin never described. history: an edit history on a route (as in C04) in which the route, its stops "
        "and its planned trips are described after every operation. Non-trivial: at least one trip; for histories, an edit after a description.")
ASSUMPTIONS = []


def table(obj):
    """The description as key-value pairs, which is also what is printed."""
    pairs = list(obj)
    ensure(all(isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], str) for p in pairs),
           lambda: f"a {type(obj).__name__} is not described by named values: {pairs}")
    out = dict(pairs)
    ensure(len(out) == len(pairs), lambda: f"a {type(obj).__name__} is described by {pairs}, naming a value twice")
    return out


def printed(obj):
    values = table(obj)
    want = f"{type(obj).__name__}(" + ", ".join(f"{k}={v}" for k, v in values.items()) + ")"
    ensure(repr(obj) == want, lambda: f"prints as {repr(obj)}, is described by {want}")
    if not isinstance(obj, jit.Position):
        ensure(str(obj) == repr(obj), lambda: f"prints as {obj} and as {repr(obj)}")
    return values


def expect(what, got, want):
    for key, value in want.items():
        ensure(key in got, lambda: f"the description of {what} lacks its {key}: {got}")
        ensure(ref.same(got[key], value), lambda: f"{what} is described with {key} {got[key]}, it is {value}")


def place(position, xy, what):
    got = printed(position)
    expect(what, got, {"coordinates": tuple(xy)})
    ensure(tuple(position[i] for i in range(len(xy))) == tuple(xy), lambda: f"{what} indexes as other than {xy}")
    text = str(position)
    ensure(text[0] == "(" and text[-1] == ")" and ref.same([float(x) for x in text[1:-1].split(",")], list(xy), 1e-3),
           lambda: f"{what} {xy} prints as {text}")


def service(got, xy, earliest, latest, duration, what):
    got = dict(got)
    ensure(tuple(got.get("position", ())) and tuple(got["position"].coordinates) == tuple(xy),
           lambda: f"{what} is described at {got.get('position')}, it is at {xy}")
    expect(what, got, {"earliest": earliest, "latest": ref.inf(latest), "duration": duration})


def requests(world):
    for i, v in world.vehicle_data.items():
        real = world.vehicles[i]
        got = printed(real)
        expect("a vehicle", got, {"identifier": i, "capacity": v["cap"], "timeout": ref.inf(v["timeout"])})
        ends = [("origin", v["o"], v["oe"], v["ol"])]
        ends.append(("destination", v["d"], v["de"], v["dl"]) if v["d"] is not None else ("destination", v["o"], v["oe"], v["ol"]))
        for name, xy, earliest, latest in ends:
            service(got[name], xy, earliest, latest, 0, f"the {name} of a vehicle")
            one = getattr(real, name)
            service(printed(one), xy, earliest, latest, 0, f"the {name} of a vehicle")
            place(one.position, xy, f"the {name} of a vehicle")
            expect("a vehicle", {k: getattr(real, f"{name}_{k}") for k in ("earliest", "latest", "duration")},
                   {"earliest": earliest, "latest": ref.inf(latest), "duration": 0})
            ensure(tuple(getattr(real, f"{name}_position").coordinates) == tuple(xy), f"the {name} position of a vehicle")
    for i, t in world.trip_data.items():
        real = world.trips[i]
        got = printed(real)
        expect("a trip", got, {"identifier": i, "capacity": t["cap"], "on_time_bonus": t["bonus"], "timeout": ref.inf(t["timeout"])})
        for name, k in (("origin", "o"), ("destination", "d")):
            service(got[name], t[k], t[k + "e"], t[k + "l"], t[k + "d"], f"the {name} of a trip")
            one = getattr(real, name)
            service(printed(one), t[k], t[k + "e"], t[k + "l"], t[k + "d"], f"the {name} of a trip")
            place(one.position, t[k], f"the {name} of a trip")
            ensure(getattr(real, f"{name}_duration") == t[k + "d"], f"the {name} duration of a trip")
            ensure(tuple(getattr(real, f"{name}_position").coordinates) == tuple(t[k]), f"the {name} position of a trip")
        far = ref.dist(world.inst["metric"], t["o"], t["d"])
        ensure(ref.close(real.distance, far) and ref.close(real.duration(0), far), lambda: f"a trip of length {far} says {real.distance}, {real.duration(0)}")
        ensure(bool(real.empty) == (t["cap"] == 0), "a trip's loaded flag")
    got = printed(world.fleet)["vehicle_identifiers"]
    ensure(sorted(got) == sorted(world.vehicles), lambda: f"the fleet of {sorted(world.vehicles)} is described as {got}")
    got = printed(world.job)
    ensure(sorted(got["trip_identifiers"]) == sorted(world.trips), lambda: f"the job of {sorted(world.trips)} is described as {got}")
    ensure(got["objective"] is world.job.objective, "the job is described with another objective")
    got = printed(world.surface)["position_coordinates"]
    known = {tuple(v[k]) for v in world.inst["vehicles"] for k in "od" if v[k] is not None} | \
        {tuple(t[k]) for t in world.inst["trips"] for k in "od"}
    ensure(len(set(got)) == len(got) and known <= set(map(tuple, got)), lambda: f"the surface of {sorted(known)} is described as {sorted(got)}")


def parts(identifier, what):
    ensure(identifier[:1] == "[" and identifier[-1:] == "]", lambda: f"{what} is named {identifier}")
    return sorted(identifier[1:-1].split("|")) if identifier != "[]" else []


def marks(visit):
    return sorted([f"P{t}" for t in visit["pickups"]] + [f"D{t}" for t in visit["deliveries"]])


def route_views(inst, route, plan, vehicle):
    """Compares the descriptions and views of a route, its stops and its planned trips with the simulated plan."""
    trips = ref.trips_by_id(inst)
    got = printed(route)
    ensure(got["vehicle_identifier"] == vehicle["id"] == route.vehicle_identifier, lambda: f"a route of vehicle {vehicle['id']} is described as {got}")
    want = [marks(e) for e in plan]
    ensure([parts(x, "a stop") for x in got["stops_identifiers"]] == want, lambda: f"a route visiting {want} is described as {got}")
    ensure(route.identifier == "|".join(got["stops_identifiers"]), lambda: f"a route visiting {want} is named {route.identifier}")
    ensure([tuple(p.coordinates) for p in route.positions] == [e["pos"] for e in plan], "the positions of a route")
    ensure(route.first_stop is route.stops[0] and route.last_stop is route.stops[-1] and route.current_stop is route.stops[-2],
           "the first, last and current stop of a route")
    ensure(tuple(route.last_position.coordinates) == plan[-1]["pos"] and tuple(route.current_position.coordinates) == plan[-2]["pos"],
           "the last and current position of a route")
    behind = []
    for s, e in zip(route.stops, plan):
        got = printed(s)
        ensure(parts(got["identifier"], "a stop") == marks(e) and got["identifier"] == s.identifier,
               lambda: f"a stop serving {marks(e)} is described as {got}")
        ensure(tuple(got["position"].coordinates) == e["pos"], lambda: f"a stop at {e['pos']} is described as {got}")
        for name, view, ids in (("pickups", s.pickup_planned_trips, e["pickups"]), ("deliveries", s.delivery_planned_trips, e["deliveries"]),
                                ("trips", s.planned_trips, e["pickups"] + e["deliveries"])):
            ensure(sorted(p.trip_identifier for p in view) == sorted(ids), lambda: f"a stop serving {marks(e)} lists {name} other than {ids}")
        ensure(sorted(t.identifier for t in s.trips) == sorted(e["pickups"] + e["deliveries"]), "the trips of a stop")
        ahead = list(s.all_previous)
        ensure(len(ahead) == len(behind) and all(a is b for a, b in zip(ahead, behind)), "the stops before a stop")
        ensure(sorted(p.trip_identifier for p in s.all_previous_pickups) == sorted(t for x in behind for t in (
            p.trip.identifier for p in x.pickup_planned_trips)), "the pickups before a stop")
        windows = [ref.tightened(inst, trips[t])[0:2] for t in e["pickups"]] + [ref.tightened(inst, trips[t])[2:4] for t in e["deliveries"]]
        low, high = max([w[0] for w in windows], default=0.0), min([w[1] for w in windows], default=ref.INF)
        ensure(ref.close(s.earliest, low) and ref.close(s.latest, high), lambda: f"a stop serving {marks(e)} says it opens from {s.earliest} to {s.latest}, not {low} to {high}")
        behind.insert(0, s)
    for view, key in ((route.pickups, "pickups"), (route.deliveries, "deliveries"), (route.planned_trips, "pickups")):
        order = [p.trip_identifier for p in view]
        ensure(len(order) == sum(len(e[key]) for e in plan), lambda: f"a route visiting {want} lists {key} {order}")
        for e in plan:
            n = len(e[key])
            ensure(sorted(order[:n]) == sorted(e[key]), lambda: f"a route visiting {want} lists {key} in another order: {order}")
            order = order[n:]
    served = sorted(t for e in plan for t in e["pickups"])
    loaded = sorted(t for t in served if trips[t]["cap"] != 0)
    ensure(sorted(t.identifier for t in route.trips) == served, "the trips of a route")
    ensure(sorted(p.trip_identifier for p in route.loaded_planned_trips) == loaded and route.loaded_trips_count == len(loaded)
           and sorted(t.identifier for t in route.loaded_trips) == loaded, lambda: f"a route loading {loaded} counts {route.loaded_trips_count}")
    ensure(bool(route.loaded) == bool(served), "whether a route is loaded")
    for p in route.planned_trips:
        t = trips[p.trip.identifier]
        got = printed(p)
        expect("a planned trip", got, {"trip_identifier": t["id"], "feasible": p.feasible})
        ensure(got["pickup"] is p.pickup and got["delivery"] is p.delivery, lambda: f"a planned trip is described as {got}")
        ensure((p.trip_identifier, p.vehicle_identifier) == (t["id"], vehicle["id"]), "the identifiers of a planned trip")
        ensure((tuple(p.origin.coordinates), tuple(p.destination.coordinates)) == (tuple(t["o"]), tuple(t["d"])), "the ends of a planned trip")
        expect("a planned trip", {"capacity": p.capacity, "timeout": p.timeout, "distance": p.distance, "empty": bool(p.empty)},
               {"capacity": t["cap"], "timeout": ref.inf(t["timeout"]), "distance": ref.dist(inst["metric"], t["o"], t["d"]), "empty": t["cap"] == 0})
    return served


def check_requests(case, ctx):
    case = plans.rename(case, case["names"])
    world = World(case["inst"], case["order"])
    requests(world)
    requests(world)
    ctx.nontrivial(bool(world.trips))


def check_plan(case, ctx):
    case = plans.rename(case, case["names"])
    inst = case["inst"]
    twin_world = World(inst, case["order"])
    twin = plans.build_planning(twin_world, case)
    world = World(inst, case["order"])
    planning = plans.build_planning(world, case)
    if case["late"]:                    # described only once everything was computed, or also before
        for r in planning.routes:
            picture(r)
    served = {}
    for r in planning.routes:
        data = next(x for x in case["routes"] if x["vehicle"] == r.vehicle.identifier)
        vehicle, plan = plans.simulate(inst, data)
        served[vehicle["id"]] = route_views(inst, r, plan, vehicle)
    requests(world)
    got = printed(planning)
    ensure(got["uuid"] == planning.uuid, "the plan's name")
    ensure(sorted(got["route_identifiers"]) == sorted(r.identifier for r in planning.routes), lambda: f"the plan is described as {got}")
    ensure(sorted(v.identifier for v in planning.vehicles) == sorted(served), "the vehicles of a plan")
    every = sorted(t for ids in served.values() for t in ids)
    ensure(sorted(t.identifier for t in planning.trips) == every and sorted(p.trip_identifier for p in planning.planned_trips) == every,
           lambda: f"a plan serving {every} lists {sorted(t.identifier for t in planning.trips)}")
    ensure(sorted(r.vehicle.identifier for r in planning.loaded_routes) == sorted(v for v, ids in served.items() if ids)
           and all(any(r is x for x in planning.routes) for r in planning.loaded_routes), "the loaded routes of a plan")
    result = plans.make_result(world, planning)
    got = printed(result)
    ensure(got["planning_uuid"] == planning.uuid and got["algorithm_name"] == type(result.algorithm).__name__, lambda: f"a result is described as {got}")
    ensure(sorted(dict(got["job"])["trip_identifiers"]) == sorted(world.trips), lambda: f"a result is described as {got}")
    ensure(sorted(dict(got["fleet_uuid"])["vehicle_identifiers"]) == sorted(world.vehicles), lambda: f"a result is described as {got}")
    one, other = ({r.vehicle.identifier: picture(r) for r in p.routes} for p in (planning, twin))
    ensure(ref.same(one, other), lambda: f"once described, the routes are {one}; never described, {other}")
    value = world.job.objective.optimization_function(planning)
    fresh = twin_world.job.objective.optimization_function(twin)
    ensure(ref.same(tuple(value), tuple(fresh)), lambda: f"once described, the plan is worth {value}; never described, {fresh}")
    ctx.label("shared stops" if any(len(s["P"] + s["D"]) > 1 for r in case["routes"] for s in r["stops"]) else "single stops")
    ctx.nontrivial(bool(every))


def check_history(case, ctx):
    world = World(case["inst"], case["order"])
    model = c04.Model(world, "0")
    if "route" in case:
        route = plans.build_route(world, case["route"])
        model.stops = [dict(s) for s in plans.visits(world.inst, case["route"])[1]]
    else:
        route = jit.Route(model.real_vehicle)
    edits = 0
    for op in case["ops"]:
        route, edit = c04.apply(op, model, route, ctx)
        edits += bool(edit)
        if len(model.stops) >= 2:
            route_views(model.inst, route, model.plan(), model.vehicle)
    c04.compare(model, route)
    ctx.nontrivial(edits >= 2 and bool(model.served()))


NAMES = st.one_of(st.none(), st.sampled_from([["", ""], ["trip ", "car "], ["a-", "b-"], ["ñ", "%s"], ["{0}", "P"], ["D", "1"]]))


@st.composite
def request_cases(draw):
    inst = draw(gen.instance(trips=(0, 5), vehicles=(0, 3), zero_cap=True))
    if draw(gen.half):
        shift = draw(st.sampled_from([0.5, 0.125, 1000.25]))
        for t in inst["trips"]:
            t["o"], t["d"] = [x + shift for x in t["o"]], [x - shift for x in t["d"]]
            t["od"] = t["od"] + shift
        for v in inst["vehicles"]:
            v["o"] = [x - shift for x in v["o"]]
            if v["ol"] is not None and draw(gen.half):
                v["ol"] += shift
    return {"inst": inst, "order": draw(gen.orders), "names": draw(NAMES)}


@st.composite
def plan_cases(draw):
    case = draw(plans.plan_case(trips=(0, 6), vehicles=(1, 3), gentle=draw(gen.half), merge=draw(gen.half), wants=True))
    case.update(order=draw(gen.orders), names=draw(NAMES), late=draw(gen.half))
    return case


TARGETS = [
    Target("requests", request_cases(), check_requests, 600, 20000),
    Target("plan", plan_cases(), check_plan, 900, 40000),
    Target("history", st.one_of(c04.cases(), c04.shared_cases()), check_history, 900, 40000),
]
