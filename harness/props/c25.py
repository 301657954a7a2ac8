"""C25: unusable edits are rejected without damaging the route."""
from hypothesis import strategies as st

import gen
import plans
import ref
from core import Target, Violation, ensure
from props.c03 import verdicts
from props.c05 import picture, references
from world import World, jit

ID = "C25"
ORACLE = "full picture of the route before and after the refused edit; independent feasibility verdicts for the error types"
RULE = ("A case is a route (0-4 trips) and 1-4 attempted insertions whose predecessor is a stop of another route, of a copy, removed "
        "earlier, or never part of any route, mixed with usable edits; or a route / planned trip offered to the error types. Non-trivial: the "
        "route serves a trip or an attempt follows a usable edit; for error types, both verdicts are counted.")
ASSUMPTIONS = ["only single insertions are judged: a planned trip consists of two insertions"]


def foreign(kind, world, vehicle, route, removed, trip):
    """A stop that is no member of the route, to be used as predecessor."""
    if kind == "loose":
        return jit.Stop(vehicle, vehicle.origin_position, None)
    if kind == "chained":               # follows a member, but was never inserted
        return jit.Stop(vehicle, vehicle.origin_position, route.stops[0])
    if kind == "copy":
        return route.clone().stops[len(route.stops) // 2 if len(route.stops) > 2 else 0]
    if kind == "other":
        return jit.Route(vehicle).stops[0]
    if kind == "removed" and removed:
        return removed[-1]
    return jit.Stop(vehicle, trip.origin_position, None) if trip else jit.Stop(vehicle, vehicle.origin_position, None)


def check_insert(case, ctx):
    inst = case["inst"]
    world = World(inst, case["order"])
    route = plans.build_route(world, case["route"])
    vehicle = route.vehicle
    served = [t.identifier for t in route.trips]
    removed, edits, tries = [], 0, 0
    for kind, how, a in case["ops"]:
        if kind == "remove":
            where = {t: [i for i, s in enumerate(route.stops) if t in {x.identifier for x in s.trips}] for t in served}
            single = [t for t in served if all(len(list(route.stops[i].trips)) == 1 for i in where[t])]
            if not single:
                continue
            t = single[a % len(single)]
            gone = route.stops[where[t][0]]
            route.remove_trip(world.trips[t])
            if all(s is not gone for s in route.stops):         # the ends stay
                removed.append(gone)
            served.remove(t)
            edits += 1
            continue
        if kind == "waypoint":
            route.insert_stop(jit.Stop(vehicle, world.pos([a % 9 - 4, 1]), route.stops[a % (len(route.stops) - 1)]))
            edits += 1
            continue
        trips = [world.trips[t] for t in sorted(world.trips)]
        trip = trips[a % len(trips)] if trips else None
        previous = foreign(kind, world, vehicle, route, removed, trip)
        position = trip.origin_position if trip and how % 2 else vehicle.origin_position
        stop = jit.Stop(vehicle, position, previous)
        if how >= 2 and trip and trip.identifier not in served and position == trip.origin_position:
            jit.PlannedTrip(vehicle, trip, stop, jit.Stop(vehicle, trip.destination_position, stop))
        if case["fresh"]:
            route.flush()
        before, members = picture(route), [id(s) for s in route.stops]
        previous_of = [s.previous for s in route.stops]
        try:
            route.insert_stop(stop)
        except jit.PreviousStopNotInRouteException as exc:
            ensure(exc.route is route and exc.stop is stop, "the error names another route or stop")
            ensure(isinstance(exc, jit.JineteException) and isinstance(exc.message, str) and str(exc) == exc.message,
                   "the error is not one of the library's")
        except Violation:
            raise
        except Exception as exc:
            ensure(False, f"a stop that follows no stop of the route ({kind}) raised {type(exc).__name__}")
        else:
            ensure(False, f"a stop that follows no stop of the route ({kind}) was accepted")
        tries += 1
        ensure([id(s) for s in route.stops] == members, "the refused insertion changed the route's stops")
        ensure(all(s.previous is p for s, p in zip(route.stops, previous_of)), "the refused insertion changed the chain of stops")
        ensure(stop.previous is previous, "the refused stop was changed")
        ensure(ref.same(picture(route), before), "the refused insertion changed the route's schedule or verdict")
        route.flush()
        ensure(ref.same(picture(route), before), "the refused insertion changed what a refresh gives")
        references(route, "route")
        ctx.label(f"refused: {kind}")
    ctx.label(f"usable edits between: {min(edits, 2)}")
    ctx.nontrivial(tries > 0 and (bool(served) or edits > 0))


@st.composite
def insert_cases(draw):
    case = draw(plans.route_case(trips=(0, 4)))
    op = st.tuples(st.sampled_from(["loose", "chained", "copy", "other", "removed", "remove", "waypoint"]),
                   st.integers(0, 3), st.integers(0, 30)).map(list)
    bad = st.tuples(st.sampled_from(["loose", "chained", "copy", "other", "removed"]), st.integers(0, 3), st.integers(0, 30)).map(list)
    case.update(ops=draw(st.lists(op, max_size=4)) + [draw(bad)], fresh=draw(gen.half), order=draw(gen.orders))
    return case


# ---- the error types that carry something infeasible
def check_errors(case, ctx):
    inst = case["inst"]
    world = World(inst, case["order"])
    route = plans.build_route(world, case["route"])
    vehicle, plan = plans.simulate(inst, case["route"])
    strict, loose = verdicts(inst, vehicle, plan)
    if bool(strict) == bool(loose):
        _offer(jit.NonFeasibleRouteException, "route", route, not strict)
        ctx.label("route: " + ("feasible" if not strict else "infeasible"))
    trips = ref.trips_by_id(inst)
    pick = {t: (i, s) for i, s in enumerate(plan) for t in s["pickups"]}
    drop = {t: (i, s) for i, s in enumerate(plan) for t in s["deliveries"]}
    for planned in list(route.planned_trips):
        t = planned.trip.identifier
        res = []
        for tol in (1e-9, 2e-3):
            ok = drop[t][1]["start"] - pick[t][1]["departure"] <= ref.inf(trips[t]["timeout"]) + tol
            for _, s in (pick[t], drop[t]):
                earliest, latest = 0.0, ref.INF
                for x in s["pickups"]:
                    oe, ol, _, _ = ref.tightened(inst, trips[x])
                    earliest, latest = max(earliest, oe), min(latest, ol)
                for x in s["deliveries"]:
                    _, _, de, dl = ref.tightened(inst, trips[x])
                    earliest, latest = max(earliest, de), min(latest, dl)
                ok = ok and earliest <= s["start"] + tol and s["start"] <= latest + tol and s["load"] <= vehicle["cap"] + tol
            res.append(ok)
        if res[0] == res[1]:
            _offer(jit.NonFeasiblePlannedTripException, "planned_trip", planned, res[0])
            ctx.label("planned trip: " + ("feasible" if res[0] else "infeasible"))
    ctx.nontrivial(bool(inst["trips"]))


def _offer(cls, attribute, value, feasible):
    try:
        error = cls(value)
    except Exception as exc:
        ensure(feasible, f"{cls.__name__} refuses something infeasible ({type(exc).__name__})")
        return
    ensure(not feasible, f"{cls.__name__} accepts something feasible")
    ensure(getattr(error, attribute) is value, f"{cls.__name__} carries something else")
    ensure(isinstance(error, jit.JineteException) and str(error) == error.message, f"{cls.__name__} is not one of the library's errors")


@st.composite
def error_cases(draw):
    case = draw(plans.route_case(trips=(0, 4)))
    if any(len(s["P"]) + len(s["D"]) > 1 for s in case["route"]["stops"]):      # shared stops: one common pickup service time
        for t in case["inst"]["trips"]:
            t["od"] = 2
    case["order"] = draw(gen.orders)
    return case


TARGETS = [
    Target("refused", insert_cases(), check_insert, 2500, 100000),
    Target("errors", error_cases(), check_errors, 2000, 60000),
]
