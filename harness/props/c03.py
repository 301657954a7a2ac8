"""C03: feasibility verdicts are exact for stops, trips, routes and plans."""
from hypothesis import strategies as st

import gen
import plans
import ref
from core import Target, ensure
from world import World, jit, snapshot

ID = "C03"
ORACLE = "verdict of an independent schedule simulator and validity predicate"
RULE = ("A case is one vehicle, 0-5 trips and one route over them (random interleaving, sometimes shared stops and "
        "requested start times); limits are drawn around the values the schedule reaches so that each is often just "
        "met or just missed. Non-trivial: at least one trip, and the verdict is not within 2e-3 of the tolerance. "
        "Labels count feasible/infeasible verdicts and which limit alone decides.")
ASSUMPTIONS = ["verdicts that depend on the documented comparison tolerance (excess between 1e-9 and 2e-3) are skipped",
               "stops shared by several trips have one common pickup service time"]


def verdicts(inst, vehicle, plan):
    strict = [p for p in ref.route_problems(inst, vehicle, plan, tol=1e-9)]
    loose = [p for p in ref.route_problems(inst, vehicle, plan, tol=2e-3)]
    return strict, loose


def stop_verdict(inst, vehicle, s, tol):
    trips = ref.trips_by_id(inst)
    earliest, latest = 0.0, ref.INF
    for t in s["pickups"]:
        oe, ol, _, _ = ref.tightened(inst, trips[t])
        earliest, latest = max(earliest, oe), min(latest, ol)
    for t in s["deliveries"]:
        _, _, de, dl = ref.tightened(inst, trips[t])
        earliest, latest = max(earliest, de), min(latest, dl)
    return earliest <= s["start"] + tol and s["start"] <= latest + tol and s["load"] <= vehicle["cap"] + tol


def check_route(case, ctx):
    inst, desc = case["inst"], case["route"]
    world = World(inst, case.get("order", 0))
    route = plans.build_route(world, desc)
    vehicle, plan = plans.simulate(inst, desc)
    trips = ref.trips_by_id(inst)
    # reading order of the verdicts must not matter
    reads = case.get("reads", 0)
    stop_got, trip_got = None, None
    if reads & 1:
        stop_got = [s.feasible for s in route.stops]
    if reads & 2:
        trip_got = {p.trip.identifier: p.feasible for p in route.planned_trips}
    got = route.feasible
    stop_got = stop_got or [s.feasible for s in route.stops]
    trip_got = trip_got or {p.trip.identifier: p.feasible for p in route.planned_trips}

    strict, loose = verdicts(inst, vehicle, plan)
    if bool(strict) == bool(loose):
        want = not strict
        ensure(got is want or got == want,
               lambda: f"route reported {'feasible' if got else 'infeasible'} but it is "
                       f"{'feasible' if want else 'infeasible: ' + strict[0][2]}")
        ctx.label("feasible" if want else "infeasible")
        kinds = {" ".join(w for w in m.split() if not any(c.isdigit() for c in w)) for _, _, m in strict}
        if len(kinds) == 1:
            ctx.label("only: " + kinds.pop()[:48])
        ctx.nontrivial(bool(inst["trips"]), note="feasible" if want else strict[0][2])
        if case["again"]:
            route.flush()
            ensure(route.feasible == want, "the verdict changes after a refresh without any edit")
            ensure(route.clone().feasible == want, "the verdict of a copy differs")
    else:
        ctx.label("borderline")

    ensure(bool(route.feasible_stops) == all(stop_got), "the verdict over all stops is not that of its stops")
    ensure(bool(route.feasible_planned_trips) == all(trip_got.values()), "the verdict over all trips is not that of its trips")
    for i, (s, value) in enumerate(zip(plan, stop_got)):
        a, b = stop_verdict(inst, vehicle, s, 1e-9), stop_verdict(inst, vehicle, s, 2e-3)
        if a == b:
            ensure(bool(value) == a, lambda: f"stop {i} reported feasible={value}, but it is {a}")
    pick = {t: s for s in plan for t in s["pickups"]}
    drop = {t: s for s in plan for t in s["deliveries"]}
    for t, value in trip_got.items():
        res = []
        for tol in (1e-9, 2e-3):
            ride = drop[t]["start"] - pick[t]["departure"]
            res.append(stop_verdict(inst, vehicle, pick[t], tol) and stop_verdict(inst, vehicle, drop[t], tol)
                       and ride <= ref.inf(trips[t]["timeout"]) + tol)
        if res[0] == res[1]:
            ensure(bool(value) == res[0], lambda: f"planned trip {t} reported feasible={value}, but it is {res[0]}")


@st.composite
def route_cases(draw):
    case = draw(plans.route_case(uniform_service=draw(gen.rare)))
    if any(len(s["P"]) + len(s["D"]) > 1 for s in case["route"]["stops"]):
        for t in case["inst"]["trips"]:
            t["od"] = 2
    case.update(reads=draw(st.integers(0, 3)), again=draw(gen.half), order=draw(gen.orders))
    return case


# ---- long routes
def check_long(case, ctx):
    one = plans.long_route(case)
    one.update(reads=case["reads"], again=True, order=0)
    with plans.plain_stack():
        check_route(one, ctx)


long_cases = st.builds(lambda case, reads: dict(case, reads=reads), plans.long_cases(), st.integers(0, 3))


# ---- wrong depots: the first or last stop elsewhere
def check_depot(case, ctx):
    inst = case["inst"]
    world = World(inst, 0)
    vehicle = world.vehicles["0"]
    data = world.vehicle_data["0"]
    first = jit.Stop(vehicle, world.pos(case["first"]), None)
    last = jit.Stop(vehicle, world.pos(case["last"]), first)
    route = jit.Route(vehicle, [first, last])
    want = tuple(case["first"]) == ref.depot_origin(data) and tuple(case["last"]) == ref.depot_destination(data)
    end = data["oe"] + ref.dist(inst["metric"], ref.depot_origin(data), case["first"]) \
        + ref.dist(inst["metric"], case["first"], case["last"])
    if want and (end > ref.depot_latest(data) or end - data["oe"] > ref.inf(data["timeout"])):
        want = False
        if end - 2e-3 <= ref.depot_latest(data) and end - 2e-3 - data["oe"] <= ref.inf(data["timeout"]):
            return
    ensure(bool(route.feasible) == want, lambda: f"route between {case['first']} and {case['last']} reported "
                                                 f"feasible={route.feasible}, depots {data['o']} and {data['d']}")
    ctx.nontrivial()
    ctx.label("feasible" if want else "infeasible")


@st.composite
def depot_cases(draw):
    v = draw(gen.vehicle("0", span=3))
    inst = {"metric": draw(st.sampled_from(["manhattan", "euclidean"])), "objective": "dial", "vehicles": [v],
            "trips": []}
    o, d = list(ref.depot_origin(v)), list(ref.depot_destination(v))
    return {"inst": inst, "first": draw(st.one_of(st.just(o), gen.coords(3))),
            "last": draw(st.one_of(st.just(d), st.just(d), gen.coords(3)))}


# ---- plans
def check_plan(case, ctx):
    routes, wants, objective = [], [], None
    for one in case["routes"]:
        world = World(one["inst"], 0, fresh_order=False)
        routes.append(plans.build_route(world, one["route"]))
        vehicle, plan = plans.simulate(one["inst"], one["route"])
        strict, loose = verdicts(one["inst"], vehicle, plan)
        if bool(strict) != bool(loose):
            return
        wants.append(not strict)
    planning = jit.Planning(set(routes))
    want = all(wants)
    ensure(bool(planning.feasible) == want,
           lambda: f"plan of {len(routes)} routes with feasibility {wants} reported feasible={planning.feasible}")

    class Fixed(jit.Algorithm):
        def _optimize(self):
            return planning

    job = jit.Job(set(), jit.DialARideObjective)
    result = Fixed(fleet=jit.Fleet(set(r.vehicle for r in routes)), job=job).optimize()
    ensure(bool(result.feasible) == want, "the result's verdict differs from its plan's")
    ctx.nontrivial(len(routes) != 1)
    ctx.label(f"{len(routes)} routes, {'feasible' if want else 'infeasible'}")


plan_cases = st.builds(
    lambda rs: {"routes": rs},
    st.lists(st.one_of(plans.route_case(trips=(0, 3), slacks=tuple(plans.GENTLE), merge=False),
                       plans.route_case(trips=(0, 3), merge=False)), max_size=4))

TARGETS = [
    Target("route", route_cases(), check_route, 6000, 200000),
    Target("long", long_cases, check_long, 60, 1500),
    Target("depot", depot_cases(), check_depot, 600, 10000),
    Target("plan", plan_cases, check_plan, 800, 20000),
]
