"""C30: randomized construction takes one of the best candidates at every step, and any of them."""
from random import Random

from hypothesis import strategies as st

import algos
import gen
import plans
import ref
from core import Target, ensure
from props.c06 import visit_list
from props.c07 import homogeneous
from world import World, jit

ID = "C30"
ORACLE = "exhaustive enumeration and scoring of the candidates at every step"
RULE = ("A case is an instance, a set-iteration order, a criterion, an iterator and the size k of its choice. `steps` follows a whole construction; `choices` makes the "
        "same step with many seeds, from scratch or from a start that serves trips. Non-trivial: a step has more than k candidates (`choices`: the best k are clearly ahead of the others).")
ASSUMPTIONS = ["scores are compared up to 1e-6 relative", "among several empty vehicles, all alike, only one is considered",
               "with 80 seeds every one of at most 4 equally likely candidates is chosen at least once"]


def options(criterion, objects, trips, alike):
    """Scores (the smaller the better) of all the candidates."""
    sign = 1 if criterion.direction is jit.OptimizationDirection.MINIMIZATION else -1
    routes = [r for r in objects if any(r.planned_trips)]
    empties = [r for r in objects if not any(r.planned_trips)]
    assert alike or len(empties) < 2
    strategy = jit.IntensiveInsertionStrategy()
    out = [(sign * criterion.scoring(c), c) for r in routes + empties[:1] for c in (strategy.compute(r, list(trips)) if trips else [])]
    return sorted(out, key=lambda x: x[0])


def settings_of(world, case, seed):
    kwargs = {"criterion_cls": algos.CRITERIA[case["criterion"]], "strategy_cls": jit.IntensiveInsertionStrategy,
              "randomized_size": case["k"], "seed": seed, "fleet": world.fleet, "job": world.job}
    if case["iterator"] == "ranking":
        kwargs["neighborhood_max_size"] = None
    return kwargs


def build(world, case, seed, initial):
    kwargs = settings_of(world, case, seed)
    if initial is not None:
        kwargs["routes"] = set(initial.routes)
    return algos.ITERATORS[case["iterator"]](**kwargs)


def steps(world, case, initial, watch):
    """Constructs a plan with the insertion algorithm; `watch` is asked before every step for what to do with the route taken."""
    base = algos.ITERATORS[case["iterator"]]

    class Watched(base):
        def __next__(self):
            verdict = watch()
            if verdict is None:
                raise StopIteration
            try:
                route = super().__next__()
            except StopIteration:
                verdict(None)
                raise
            verdict(route)
            return route

    jit.InsertionAlgorithm(iterator_cls=Watched, initial=initial, **settings_of(world, case, case["seed"])).optimize()


def start(world, case):
    if not case["routes"]:
        return None
    return plans.make_result(world, plans.build_planning(world, case))


def check_steps(case, ctx):
    inst, k = case["inst"], case["k"]
    world = World(inst, case["order"])
    alike = homogeneous(inst)
    criterion = algos.CRITERIA[case["criterion"]]()
    sign = 1 if criterion.direction is jit.OptimizationDirection.MINIMIZATION else -1
    initial = start(world, case)
    objects = {r.vehicle.identifier: r for r in initial.routes} if initial else {v["id"]: jit.Route(world.vehicles[v["id"]]) for v in inst["vehicles"]}
    pending = {t["id"] for t in inst["trips"]} - {t.identifier for r in objects.values() for t in r.trips}
    seen = {"steps": 0, "several": False}

    def watch():
        if seen["steps"] == case.get("limit"):
            return None
        seen["steps"] += 1
        found = options(criterion, objects.values(), [world.trips[t] for t in sorted(pending)], alike)

        def verdict(route):
            if route is None:
                ensure(not found, lambda: f"the construction ends at step {seen['steps']} with {len(found)} candidates left")
                return
            score = sign * criterion.scoring(route)
            ahead = sum(1 for s, _ in found if s < score - 1e-6 * max(1, abs(score)))
            ensure(ahead < k, lambda: f"step {seen['steps']} accepts a candidate although {ahead} better ones are there, to choose from {k}")
            seen["several"] |= len(found) > k
            ctx.label("best accepted" if not ahead else "another of the best accepted")
            pending.difference_update(t.identifier for t in route.trips)
            objects[route.vehicle.identifier] = route

        return verdict

    steps(world, case, initial, watch)
    ctx.nontrivial(seen["several"])
    ctx.label(case["iterator"])


def check_choices(case, ctx):
    inst, k = case["inst"], case["k"]
    world = World(inst, case["order"])
    criterion = algos.CRITERIA[case["criterion"]]()
    initial = start(world, case)
    objects = list(initial.routes) if initial else [jit.Route(world.vehicles[v["id"]]) for v in inst["vehicles"]]
    pending = [world.trips[t["id"]] for t in inst["trips"]]
    done = {t for r in objects for t in r.trips}
    found = options(criterion, objects, [t for t in pending if t not in done], homogeneous(inst))
    scores = [s for s, _ in found]
    clear = len(scores) <= k or scores[k] - scores[k - 1] > 1e-5 * max(1, abs(scores[k]))
    chosen = {}
    for seed in range(80):
        route = next(build(world, case, seed, initial), None)
        ensure((route is None) == (not found), lambda: f"{len(found)} candidates, and the iterator returns {route}")
        if route is None:
            break
        chosen.setdefault((route.vehicle.identifier, visit_list(route)), seed)
    loaded = {r.vehicle.identifier for r in objects if any(r.planned_trips)}
    name = lambda v: v if v in loaded else None         # any of the empty vehicles
    best = {(name(c.vehicle.identifier), visit_list(c)) for _, c in found[:k]}
    got = {(name(v), shape) for v, shape in chosen}
    if clear:
        ensure(got <= best, lambda: f"not among the {k} best candidates: {sorted(got - best, key=repr)[0]}")
        ensure(best <= got, lambda: f"80 seeds never choose {sorted(best - got, key=repr)[0]}, one of the {k} best candidates")
        ctx.label(f"{case['iterator']}: {len(best)} chosen from")
    ctx.nontrivial(clear and len(found) > k)


@st.composite
def settings(draw):
    return {"order": draw(gen.orders), "criterion": draw(st.sampled_from(sorted(algos.CRITERIA))), "iterator": draw(st.sampled_from(["ranking", "ranking", "best"])), "k": draw(st.sampled_from([1, 2, 2, 3, 4])), "seed": draw(gen.seeds)}


@st.composite
def cases(draw, trips=(2, 5)):
    if draw(gen.half):
        case = draw(plans.plan_case(trips=trips, vehicles=(1, 3), merge=draw(gen.rare), gentle=True))
        if any(ref.route_problems(case["inst"], *plans.simulate(case["inst"], r), tol=1e-9) for r in case["routes"]):
            case["routes"] = []
    else:
        case = {"inst": draw(gen.instance(trips=trips, vehicles=(1, 3), homogeneous=True, tight=draw(st.sampled_from([None, 0])))), "routes": []}
    if not case["routes"] and draw(gen.half):           # everything fits
        for v in case["inst"]["vehicles"]:
            v.update(ol=None, dl=None, timeout=None, cap=9)
        for t in case["inst"]["trips"]:
            t.update(ol=None, dl=None, timeout=None)
    served = {r["vehicle"] for r in case["routes"] if r["stops"]}
    vs = case["inst"]["vehicles"]
    if case["routes"]:              # at most one empty vehicle, unless all are alike
        vs = [v for v in vs if v["id"] in served] + ([v for v in vs if v["id"] not in served] if homogeneous(case["inst"]) else [])
        if not vs:
            vs = case["inst"]["vehicles"][:1]
            case["routes"] = []
    elif not homogeneous(case["inst"]):
        vs = vs[:1]
    case["inst"]["vehicles"] = vs
    kept = {v["id"] for v in vs}
    case["routes"] = [r for r in case["routes"] if r["vehicle"] in kept]
    case.update(draw(settings()))
    return case


def crowded(case):
    """A long route and many trips that fit nearly anywhere."""
    rng = Random(case["number"])
    spot = lambda: [rng.randint(-9, 9), rng.randint(-9, 9)]
    vs = [{"id": str(i), "o": [0, 0], "oe": 0, "ol": None, "d": None, "de": 0, "dl": None, "cap": 9, "timeout": None} for i in range(rng.randint(1, 2))]
    loaded, free = rng.randint(2, 6), rng.randint(3, 6)
    trips = [{"id": str(i), "o": spot(), "d": spot(), "oe": rng.choice([0, 0, 0, 40]), "ol": None, "od": rng.choice([0, 1]), "de": 0, "dl": None, "dd": 0, "cap": 1,
              "timeout": None, "bonus": 0} for i in range(loaded + free)]
    inst = {"metric": rng.choice(["manhattan", "euclidean"]), "objective": "dial", "vehicles": vs, "trips": trips}
    routes = [{"vehicle": v["id"], "stops": []} for v in vs]
    for t in trips[:loaded]:
        rng.choice(routes)["stops"] += [{"P": [t["id"]], "D": [], "want": None}, {"P": [], "D": [t["id"]], "want": None}]
    return dict(case, inst=inst, routes=routes, limit=2)


crowded_cases = st.builds(lambda s, n: dict(s, number=n), settings(), st.integers(0, 2 ** 32))

TARGETS = [Target("crowded", crowded_cases, lambda case, ctx: check_steps(crowded(case), ctx), 120, 4000), Target("steps", cases(), check_steps, 900, 40000), Target("choices", cases((1, 4)), check_choices, 400, 10000)]
