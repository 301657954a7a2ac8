"""C05: copies of routes, plans and results are equal and independent."""
from copy import deepcopy

from hypothesis import strategies as st

import gen
import plans
import ref
from core import Target, ensure
from world import World, jit

ID = "C05"
ORACLE = "copies compared with, and edited independently of, their originals"
RULE = ("A case is a route (0-5 trips, random interleaving, sometimes shared stops, start-time requests) with a copy position "
        "and later edits, or a plan of up to 3 routes deep-copied as route, plan or result and then edited. "
        "Non-trivial: at least one trip and, for partial copies, a position inside the route or at least one edit applied.")
ASSUMPTIONS = ["edits after a partial copy touch stops at or after the copy position, the part a caller asked to copy"]


def picture(route):
    """Everything a route reports, plain."""
    return [
        (tuple(s.position.coordinates), sorted(p.trip.identifier for p in s.pickup_planned_trips),
         sorted(p.trip.identifier for p in s.delivery_planned_trips), s.arrival_time, s.starting_time,
         s.departure_time, s.capacity, bool(s.feasible)) for s in route.stops
    ] + [sorted((p.trip.identifier, p.pickup_time, p.delivery_time, bool(p.feasible)) for p in route.planned_trips),
         bool(route.feasible), route.distance, route.duration]


def references(route, what):
    previous = None
    for i, s in enumerate(route.stops):
        ensure(s.previous is previous, lambda: f"{what}: stop {i} does not follow stop {i - 1} of the same route")
        previous = s
        ensure(s.vehicle is route.vehicle, lambda: f"{what}: stop {i} belongs to another vehicle")
        for p in s.pickup_planned_trips:
            ensure(p.pickup is s, lambda: f"{what}: pickup reference of trip {p.trip.identifier} leaves the route")
            ensure(any(p.delivery is o for o in route.stops) and any(p is o for o in p.delivery.delivery_planned_trips),
                   lambda: f"{what}: delivery reference of trip {p.trip.identifier} leaves the route")
        for p in s.delivery_planned_trips:
            ensure(p.delivery is s, lambda: f"{what}: delivery reference of trip {p.trip.identifier} leaves the route")
            ensure(any(p.pickup is o for o in route.stops) and any(p is o for o in p.pickup.pickup_planned_trips),
                   lambda: f"{what}: pickup reference of trip {p.trip.identifier} leaves the route")


def edit(route, world, vid, op, low):
    """Edits a route at or after stop index `low`; True when something was done."""
    kind, a, b, c = op
    vehicle = world.vehicles[vid]
    n = len(route.stops)
    if kind == "start":
        i = low + a % (n - low)
        route.stops[i].starting_time = 100 + b % 50
        for s in route.stops[i:]:
            s.flush()
        route.flush()
        return True
    if kind == "insert":
        served = {t.identifier for t in route.trips}
        rest = [t for t in sorted(world.trips) if t not in served]
        if not rest:
            return False
        trip = world.trips[rest[a % len(rest)]]
        i = max(low - 1, 0) + b % (n - 1 - max(low - 1, 0))
        j = i + c % (n - 1 - i)
        pickup = jit.Stop(vehicle, trip.origin_position, route.stops[i])
        delivery = jit.Stop(vehicle, trip.destination_position, pickup if j == i else route.stops[j])
        route.append_planned_trip(jit.PlannedTrip(vehicle, trip, pickup, delivery))
        return True
    if kind == "remove":
        where = {}
        for i, s in enumerate(route.stops):
            for p in s.planned_trips:
                where.setdefault(p.trip.identifier, []).append((i, sum(1 for _ in s.planned_trips)))
        fit = sorted(t for t, w in where.items() if all(i >= low and count == 1 for i, count in w))
        if not fit:
            return False
        name = fit[a % len(fit)]
        route.remove_trip(next(p.trip for p in route.planned_trips if p.trip.identifier == name))
        return True
    if kind == "drop":                  # an empty stop out of the middle
        fit = [i for i in range(max(low, 1), n - 1) if not any(route.stops[i].planned_trips)]
        if not fit:
            return False
        route.remove_stop_at(fit[a % len(fit)])
        return True
    if kind == "join":                  # one more trip between two visits the route already makes
        if n - low < 2:
            return False
        i = low + a % (n - low - 1)
        j = i + 1 + b % (n - 1 - i)
        one, other = route.stops[i], route.stops[j]
        trip = jit.Trip("j" + "".join(sorted(p.identifier for p in route.trips)), jit.Service(one.position, duration=c % 3),
                        jit.Service(other.position), capacity=c % 2)
        jit.PlannedTrip(vehicle, trip, one, other)
        for s in route.stops[i:]:
            s.flush()
        route.flush()
        return True
    if kind == "waypoint":
        i = max(low, 1) + a % (n - max(low, 1))
        route.insert_stop_at(i, jit.Stop(vehicle, world.pos([b % 9 - 4, c % 9 - 4]), route.stops[i - 1]))
        return True
    raise AssertionError(kind)


def objective_of(world, route):
    return world.job.objective.optimization_function(route)


def check_clone(case, ctx):
    inst, desc = case["inst"], case["route"]
    world = World(inst, case["order"])
    route = plans.build_route(world, desc)
    idx = case["idx"] % len(route.stops)
    before = picture(route) if case["warm"] else None
    copy = route.clone(idx) if idx or case["explicit"] else route.clone()
    if before is None:
        before = picture(route)
    ensure(ref.same(picture(route), before), "copying changes the original")
    ensure(copy is not route and copy.stops is not route.stops, "the copy is the original")
    ensure(copy.vehicle is route.vehicle, "the copy drives another vehicle")
    ensure(ref.same(picture(copy), before), lambda: f"copy from stop {idx} differs: {picture(copy)} instead of {before}")
    ensure(ref.close(objective_of(world, copy), objective_of(world, route)), "the copy has another objective value")
    ensure(len(copy.stops) == len(route.stops), "stop count")
    references(copy, "copy")
    references(route, "original")
    for i in range(idx, len(route.stops)):
        ensure(copy.stops[i] is not route.stops[i], lambda: f"copy from {idx} shares stop {i} with the original")
    ensure(all(p.trip is world.trips[p.trip.identifier] for p in copy.planned_trips), "the copy serves other trip objects")
    done = 0
    for op in case["ops"]:
        done += bool(edit(copy, world, desc["vehicle"], op, idx))
        ensure(ref.same(picture(route), before), lambda: f"editing the copy ({op}) changes the original")
    picture(copy)
    references(copy, "edited copy")
    references(route, "original after the edits")
    route.flush()
    ensure(ref.same(picture(route), before), "editing the copy changes what the refreshed original reports")
    ctx.label(f"edits applied: {min(done, 3)}")
    ctx.label("idx 0" if idx == 0 else "last stop" if idx == len(route.stops) - 1 else "inside")
    ctx.nontrivial(bool(inst["trips"]) and (done or 0 < idx))


number = st.integers(0, 30)
edits = st.tuples(st.sampled_from(["start", "insert", "insert", "remove", "waypoint", "drop", "join"]), number, number,
                  number).map(list)


@st.composite
def clone_cases(draw):
    case = draw(plans.route_case(trips=(0, 5)))
    spare = draw(st.integers(0, 2))
    for i in range(spare):
        case["inst"]["trips"].append(draw(gen.trip(f"s{i}", case["inst"]["metric"])))
    case.update(idx=draw(number), warm=draw(gen.half), explicit=draw(gen.half), order=draw(gen.orders),
                ops=draw(st.lists(edits, max_size=4)))
    return case


def objects(routes):
    out = set()
    for r in routes:
        out.add(id(r))
        out.add(id(r.stops))
        for s in r.stops:
            out.update((id(s), id(s.pickup_planned_trips), id(s.delivery_planned_trips)))
            out.update(id(p) for p in s.planned_trips)
    return out


def check_deep(case, ctx):
    world = World(case["inst"], case["order"])
    planning = plans.build_planning(world, case)
    result = plans.make_result(world, planning)
    value = result.optimization_value

    def full(routes):
        return sorted(((r.vehicle.identifier, picture(r)) for r in routes), key=repr)

    before = full(planning.routes)
    how = case["how"]
    if how == "route":
        copies = {deepcopy(r) for r in planning.routes}
        ensure(ref.same(full(copies), before), "a deep copy of a route differs from it")
        target = copies
    elif how == "planning":
        copied = deepcopy(planning)
        ensure(copied is not planning and copied.routes is not planning.routes, "the deep copy is the original")
        ensure(ref.close(world.job.objective.optimization_function(copied), value), "the deep copy has another value")
        ensure(copied.feasible == planning.feasible, "the deep copy has another verdict")
        target = copied.routes
    else:
        copied = deepcopy(result)
        ensure(copied is not result and copied.planning is not planning, "the deep copy is the original")
        ensure(ref.close(copied.optimization_value, value), "the deep copy has another value")
        ensure(copied.job is result.job and copied.fleet is result.fleet, "the deep copy solves another problem")
        ensure(copied.feasible == result.feasible, "the deep copy has another verdict")
        target = copied.planning.routes
    ensure(ref.same(full(target), before), "the deep copy differs from the original")
    ensure(not objects(target) & objects(planning.routes), "the deep copy shares state with the original")
    for r in target:
        references(r, "deep copy")
        ensure(r.vehicle is world.vehicles[r.vehicle.identifier], "the deep copy copies the vehicle")
        ensure(all(p.trip is world.trips[p.trip.identifier] for p in r.planned_trips), "the deep copy copies trips")
    # edits on either side
    sides = [sorted(target, key=lambda r: r.vehicle.identifier), sorted(planning.routes, key=lambda r: r.vehicle.identifier)]
    done = 0
    for op in case["ops"]:
        mine, other = (0, 1) if op[4] else (1, 0)
        if not sides[mine]:
            continue
        r = sides[mine][op[3] % len(sides[mine])]
        kept = full(sides[other])
        done += bool(edit(r, world, r.vehicle.identifier, op[:4], 0))
        ensure(ref.same(full(sides[other]), kept), "editing one side of a deep copy changes the other")
    ctx.label(how)
    ctx.label(f"edits applied: {min(done, 3)}")
    ctx.nontrivial(any(r["stops"] for r in case["routes"]))


@st.composite
def deep_cases(draw):
    case = draw(plans.plan_case(trips=(0, 6), gentle=draw(gen.half), merge=draw(gen.half), wants=True))
    case.update(order=draw(gen.orders), how=draw(st.sampled_from(["route", "planning", "result"])),
                ops=draw(st.lists(st.tuples(edits, gen.half).map(lambda x: x[0] + [x[1]]), max_size=4)))
    return case


def check_long(case, ctx):
    one = plans.long_route(case)
    one.update(order=0, ops=case["ops"])
    if case["how"] == "clone":
        one.update(idx=case["idx"], warm=case["warm"], explicit=True)
        with plans.plain_stack():
            check_clone(one, ctx)
    else:
        one.update(routes=[one["route"]], how=case["how"], ops=[op + [0] for op in case["ops"]])
        with plans.plain_stack():
            check_deep(one, ctx)


long_cases = st.builds(lambda case, more: dict(case, **more), plans.long_cases(trips=(40, 150)), st.fixed_dictionaries(
    {"how": st.sampled_from(["clone", "clone", "route", "planning", "result"]), "warm": gen.half, "idx": st.integers(0, 300),
     "ops": st.lists(edits, max_size=1)}))


TARGETS = [
    Target("long", long_cases, check_long, 40, 1000),
    Target("clone", clone_cases(), check_clone, 3000, 150000),
    Target("deepcopy", deep_cases(), check_deep, 1500, 60000),
]
