"""C08: local search never worsens a plan, never loses service, and terminates."""
from hypothesis import strategies as st

import algos
import gen
import plans
import ref
from core import Target, ensure
from props import c01, c02
from world import World, jit, shape, snapshot

ID = "C08"
ORACLE = "served trips, executability and value of the plan before and after, recomputed from the schedules"
RULE = ("A case is a feasible start (hand-made: random interleavings with limits near the schedule; or built by an insertion), a set-"
        "iteration order, and a local-search strategy called directly (copying or in place), repeatedly, or through the local-search "
        "algorithm. Non-trivial: the start serves at least two trips; labels count changed and improved plans per strategy.")
ASSUMPTIONS = ["values are compared with a tolerance of 1e-6 relative for rounding",
               "a search using more than 20 s of processor time on these inputs does not end"]


def value_of(world, result):
    return ref.planning_value(world.inst, [(world.vehicle_data[r.vehicle.identifier], snapshot(r)) for r in result.routes])


def not_worse(new, old):
    for a, b in zip(new, old):
        if ref.close(a, b):
            continue
        return a > b
    return True


def judge(world, before, result, what):
    served, value, vehicles = before
    c01.executable(world, result)
    now = c02.sound(world, result)
    ensure(now == served, lambda: f"{what}: serves {sorted(now)}, before {sorted(served)}")
    ensure({r.vehicle.identifier for r in result.routes} == vehicles, f"{what}: routes of other vehicles than before")
    new = value_of(world, result)
    ensure(not_worse(new, value), lambda: f"{what}: worth {new}, before {value}")
    ensure(ref.close(tuple(result.optimization_value), new), lambda: f"{what}: reports {result.optimization_value}, is worth {new}")
    return new


def search(world, initial, case, ctx):
    c01.executable(world, initial)
    before = (c02.sound(world, initial), value_of(world, initial), {r.vehicle.identifier for r in initial.routes})
    cls = algos.LOCAL[case["strategy"]]
    name = case["strategy"]
    shapes = sorted(shape(r) for r in initial.routes)
    if case["how"] == "algorithm":
        kwargs = {} if case["strategy"] == "reallocation" and case["default"] else {"strategy_cls": cls}
        if case["threshold"] != 1:
            kwargs["no_improvement_threshold"] = case["threshold"]
        result = jit.LocalSearchAlgorithm(initial=initial, fleet=world.fleet, job=world.job, **kwargs).optimize()
        new = judge(world, before, result, f"algorithm with {name}")
    else:
        result, value = initial, before[1]
        for turn in range(case["threshold"]):
            in_place = case["how"] == "in-place"
            after = cls(result, with_copy=False).improve() if in_place else cls(result).improve()
            ensure(not in_place or after is result, "searching in place returns another result")
            new = judge(world, (before[0], value, before[2]), after, f"{name}, application {turn + 1}")
            result, value = after, new
    changed = sorted(shape(r) for r in result.routes) != shapes
    better = not ref.close(new, before[1])
    ctx.label(f"{name} {case['how']}: " + ("improved" if better else "changed" if changed else "kept"))
    ctx.nontrivial(sum(before[0].values()) >= 2)


def check_plan(case, ctx):
    world = World(case["inst"], case["order"])
    for r in case["routes"]:
        vehicle, plan = plans.simulate(case["inst"], r)
        if ref.route_problems(case["inst"], vehicle, plan, tol=1e-9):
            ctx.label("skipped: infeasible start")
            return
    search(world, plans.make_result(world, plans.build_planning(world, case)), case, ctx)


def check_built(case, ctx):
    world = World(case["inst"], case["order"])
    first = jit.InsertionAlgorithm(fleet=world.fleet, job=world.job, **algos.insertion_kwargs(case["first"])).optimize()
    search(world, first, case, ctx)


@st.composite
def searches(draw):
    return {"order": draw(gen.orders), "strategy": draw(st.sampled_from(sorted(algos.LOCAL))), "default": draw(gen.half),
            "how": draw(st.sampled_from(["algorithm", "algorithm", "copy", "in-place"])), "threshold": draw(st.integers(1, 3))}


@st.composite
def plan_cases(draw):
    case = draw(plans.plan_case(trips=(1, 8), vehicles=(1, 4), idle=draw(gen.rare), merge=True, wants=True))
    case.update(draw(searches()))
    return case


@st.composite
def built_cases(draw):
    tight = draw(st.sampled_from([None, 0, 1]))
    case = {"inst": draw(gen.instance(trips=(1, 7), vehicles=(1, 3), tight=tight, zero_cap=draw(gen.rare))),
            "first": draw(algos.insertion())}
    case.update(draw(searches()))
    return case


@st.composite
def pooled_cases(draw):
    """One vehicle first serves a trip that lies at another vehicle's door, then pools trips of which some open late and
    some may ride only as long as they do in this plan: dropping the first trip makes those board too early."""
    metric = draw(st.sampled_from(["manhattan", "euclidean"]))
    near, far = draw(gen.coords(3)), draw(gen.coords(3))
    shift = draw(st.integers(4, 9)) * draw(st.sampled_from([-1, 1]))
    spread = draw(st.integers(1, 3))
    n = draw(st.integers(2, 4))
    vehicles = [draw(gen.vehicle(i, early=False)) for i in ("0", "1")]
    for v, place in zip(vehicles, (near, far)):
        v.update(o=list(place), d=None, ol=None, dl=None, timeout=None, cap=4)
    vehicles[1]["o"][0] += shift
    trips = []
    for i in range(n):
        t = draw(gen.trip(str(i), metric, tight=0))
        base = vehicles[1]["o"] if i == 0 else vehicles[0]["o"]
        for end in ("o", "d"):
            t[end] = [c + draw(st.integers(-spread, spread)) for c in base]
        t.update(cap=1, timeout=None, bonus=0)
        trips.append(t)
    inst = {"metric": metric, "objective": draw(st.sampled_from(["dial", "dial", "dial", "taxi"])), "vehicles": vehicles,
            "trips": trips}
    rest = [t["id"] for t in trips[1:]]
    visits = draw(plans.visit_order(rest, nested=1))
    route = {"vehicle": "0", "stops": plans.to_stops(inst, [("P", "0"), ("D", "0")] + visits, False)}
    _, plan = plans.simulate(inst, route)
    for t in trips[1:]:                     # some windows open about when the vehicle comes by
        for key, kind in (("oe", "pickups"), ("de", "deliveries")):
            if draw(gen.half):
                at = next(s["start"] for s in plan if t["id"] in s[kind])
                t[key] = max(0, int(at) + draw(st.sampled_from([-2, 0, 0, 1, 3, 6])))
    plans.calibrate_rides(inst, route, [t["id"] for t in trips[1:]], draw(st.sampled_from([0, 0, 0, 1, 2])))
    case = {"inst": inst, "routes": [route, {"vehicle": "1", "stops": []}]}
    case.update(draw(searches()))
    if draw(gen.half):
        case["strategy"] = "reallocation"
    return case


TARGETS = [
    Target("pooled", pooled_cases(), check_plan, 600, 30000),
    Target("from-plan", plan_cases(), check_plan, 2000, 80000),
    Target("from-built", built_cases(), check_built, 1000, 40000),
]
