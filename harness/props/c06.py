"""C06: insertion strategies enumerate exactly the positions they promise."""
from hypothesis import strategies as st

import gen
import plans
import ref
from core import Target, ensure
from props.c03 import verdicts
from props.c05 import picture, references
from world import World, jit, snapshot

ID = "C06"
ORACLE = "enumeration of all position pairs and spliced visit lists"
RULE = ("A case is a route (0-5 trips, sometimes shared stops and start-time requests), 1-3 further trips, a strategy with its "
        "parameters and the feasibility filter. Non-trivial: the route has at least one trip or several trips are "
        "inserted; labels count candidates kept and dropped by the filter.")
ASSUMPTIONS = ["feasibility verdicts within 2e-3 of a limit are not compared"]


def visit_list(route):
    """(pickups, deliveries, position) per stop."""
    return tuple((tuple(sorted(p.trip.identifier for p in s.pickup_planned_trips)),
                  tuple(sorted(p.trip.identifier for p in s.delivery_planned_trips)),
                  tuple(s.position.coordinates)) for s in route.stops)


def spliced(base, trip, i, j):
    pickup = ((trip["id"],), (), tuple(trip["o"]))
    delivery = ((), (trip["id"],), tuple(trip["d"]))
    return base[:i + 1] + (pickup,) + base[i + 1:j] + (delivery,) + base[j:]


def check(case, ctx):
    inst, desc = case["inst"], case["route"]
    world = World(inst, case["order"])
    route = plans.build_route(world, desc)
    if case["warm"]:
        picture(route)
    reference = picture(plans.build_route(world, desc))
    base = visit_list(route)
    n = len(base)
    new = [t for t in inst["trips"] if t["id"].startswith("n")]
    trips = [world.trips[t["id"]] for t in new]
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    kind, count = case["kind"], case["count"]
    given = {0: lambda: trips, 1: lambda: iter(trips), 2: lambda: tuple(trips)}[case["pass"]]
    if len(trips) == 1 and case["pass"] == 0:
        given = lambda: trips[0]

    def compute(**kwargs):
        if kind == "intensive":
            strategy, args = jit.IntensiveInsertionStrategy, ()
        elif kind == "tail":
            strategy, args = jit.TailInsertionStrategy, ()
        elif kind == "sampling":
            kwargs["count"] = count
            strategy, args = (lambda **k: jit.SamplingInsertionStrategy(seed=case["seed"], **k)), ()
        else:
            strategy, args = jit.InsertionStrategy, pairs[case["seed"] % len(pairs)]
        only = kwargs.pop("only", None)
        if only is None:
            made = strategy()
        elif case["warm"]:
            made = strategy(only_feasible=only)
        else:
            made = strategy()
            kwargs["only_feasible"] = only
        return list(made.compute(route, given(), *args, **kwargs))

    everything = compute(only=False)
    ensure(ref.same(picture(route), reference), "computing candidates changes the route (visits, times or verdict)")
    kept = compute(only=True)
    ensure(ref.same(picture(route), reference), "computing feasible candidates changes the route (visits, times or verdict)")
    default = compute()
    shapes = [visit_list(r) for r in everything]

    # exactly the promised positions, each once
    universe = {}
    for t in new:
        for i, j in pairs:
            universe[spliced(base, t, i, j)] = (t["id"], i, j)
    for shape in shapes:
        ensure(shape in universe, lambda: f"a candidate is not the route plus one trip: {shape}")
    ensure(len(set(shapes)) == len(shapes), "a position is proposed twice")
    got = {}
    for shape in shapes:
        t, i, j = universe[shape]
        got.setdefault(t, set()).add((i, j))
    for t in new:
        mine = got.get(t["id"], set())
        if kind == "intensive":
            want = set(pairs)
        elif kind == "tail":
            want = {(n - 2, n - 1)}
        elif kind == "sampling":
            want = set(pairs) if len(pairs) <= count else None
        else:
            want = {pairs[case["seed"] % len(pairs)]}
        if want is None:
            ensure(len(mine) == count, lambda: f"{len(mine)} positions sampled for a trip instead of {count}")
        else:
            ensure(mine == want, lambda: f"positions for trip {t['id']}: missing {sorted(want - mine)}, "
                                         f"unexpected {sorted(mine - want)} (route of {n} stops)")
    ctx.label(f"{kind}: {'exhaustive' if kind != 'sampling' or len(pairs) <= count else 'sampled'}")

    # candidates are sound routes over the same vehicle
    for r in everything:
        ensure(r.vehicle is route.vehicle, "a candidate drives another vehicle")
        references(r, "candidate")

    # the filter keeps exactly the feasible ones
    feasible = sorted(visit_list(r) for r in everything if r.feasible)
    ensure(sorted(visit_list(r) for r in kept) == feasible,
           lambda: f"filter kept {len(kept)} candidates, {len(feasible)} are feasible")
    ensure(sorted(visit_list(r) for r in default) == feasible, "the filter is not applied by default")
    data = world.vehicle_data[desc["vehicle"]]
    for r in everything:
        plan = snapshot(r)
        strict = ref.route_problems(inst, data, plan, tol=1e-9)
        loose = ref.route_problems(inst, data, plan, tol=2e-3)
        if bool(strict) == bool(loose):
            ensure(bool(r.feasible) == (not strict), lambda: f"candidate reported feasible={r.feasible} but "
                                                             f"{strict[0][2] if strict else 'nothing is wrong'}")
    ctx.label("kept", len(kept))
    ctx.label("dropped", len(everything) - len(kept))
    ctx.nontrivial(n > 2 or len(new) > 1)


@st.composite
def cases(draw):
    case = draw(plans.route_case(trips=(0, 5), slacks=tuple(plans.GENTLE), wants=draw(gen.rare),
                                 uniform_service=False, merge=draw(gen.rare)))
    inst = case["inst"]
    if any(len(s["P"]) + len(s["D"]) > 1 for s in case["route"]["stops"]):
        for t in inst["trips"]:
            t["od"] = 2
    for i in range(draw(st.integers(1, 3))):
        t = draw(gen.trip(f"n{i}", inst["metric"]))
        if draw(gen.half):
            t.update(timeout=None)
        if draw(gen.half):
            t.update(ol=None, dl=None)
        inst["trips"].append(t)
    case.update(order=draw(gen.orders), kind=draw(st.sampled_from(["intensive", "intensive", "sampling", "sampling", "tail", "base"])),
                count=draw(st.one_of(st.integers(1, 12), st.integers(1, 80))), seed=draw(st.one_of(gen.seeds, st.integers(0, 999))),
                warm=draw(gen.half))
    case["pass"] = draw(st.integers(0, 2))
    return case


TARGETS = [Target("strategies", cases(), check, 2500, 100000)]
