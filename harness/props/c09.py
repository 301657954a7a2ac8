"""C09: metaheuristics keep the best plan found."""
from hypothesis import strategies as st

import algos
import gen
import plans
import ref
from core import Target, ensure
from props import c01, c02
from props.c08 import not_worse, value_of
from world import World, jit, shape

ID = "C09"
ORACLE = "recorded history of every episode's and step's input and output; values recomputed from the schedules"
RULE = ("scripted: episodes or steps return generated plans (better, worse, equal, in any order), started from a generated plan or not. "
        "searches: real insertions, local searches and compositions as episodes, recorded. grasp: GRASP with recorded first solutions. "
        "Non-trivial: at least two recorded results with different values, or a start of another value than the last result's.")
ASSUMPTIONS = ["values are compared with a tolerance of 1e-6 relative for rounding"]


def picture(result):
    return sorted((str(r.vehicle.identifier), shape(r)) for r in result.routes)


class History:
    def __init__(self, world):
        self.world = world
        self.episodes = []      # (initial given, result, value, seed)

    def recorder(self, base):
        history = self

        class Recorded(base):
            def __init__(self, *args, **kwargs):
                self.given = kwargs.get("initial")
                self.given_seed = kwargs.get("seed")
                super().__init__(*args, **kwargs)

            def optimize(self):
                result = super().optimize()
                history.episodes.append((self.given, result, value_of(history.world, result), self.given_seed))
                return result

        return Recorded


def scripted(world, script):
    """An algorithm class whose n-th instance returns the n-th scripted plan."""
    turns = iter(range(10 ** 6))

    class Scripted(jit.Algorithm):
        def __init__(self, initial=None, **kwargs):
            super().__init__(**kwargs)
            self.turn = next(turns)

        def _optimize(self):
            return script(self.turn)

    return Scripted


def judge_iterative(world, result, history, initial, restart, episodes, ctx):
    got = value_of(world, result)
    ensure(len(history.episodes) == episodes, lambda: f"{len(history.episodes)} episodes run, asked for {episodes}")
    best, best_value = initial, None if initial is None else value_of(world, initial)
    for i, (given, now, value, _) in enumerate(history.episodes):
        if restart:
            ensure(given is initial, f"episode {i + 1} does not start from the given start although each one restarts")
        elif best is None:
            ensure(given is None, "the first episode starts from a plan although none is given")
        else:
            ensure(given is not None, f"episode {i + 1} starts from scratch instead of the best plan so far")
            ensure(ref.close(value_of(world, given), best_value),
                   lambda: f"episode {i + 1} starts from a plan worth {value_of(world, given)}, the best so far is worth {best_value}")
        ensure(not_worse(got, value), lambda: f"returns a plan worth {got}, episode {i + 1} found {value}")
        if best is None or not not_worse(best_value, value):
            best, best_value = now, value
    if initial is not None and not restart:
        first = value_of(world, initial)
        ensure(not_worse(got, first), lambda: f"returns a plan worth {got}, it started from one worth {first}")
    candidates = [now for _, now, value, _ in history.episodes if ref.close(value, got)]
    if initial is not None:
        candidates.append(initial)
    ensure(any(picture(c) == picture(result) for c in candidates), "the returned plan is none of those found")
    return len({tuple(round(x, 6) for x in value) for _, _, value, _ in history.episodes}) >= 2


def judge_seeds(history):
    seeds = [s for _, _, _, s in history.episodes]
    ensure(all(s is not None for s in seeds), "an episode gets no seed")
    ensure(len(set(seeds)) == len(seeds), "episodes share a seed")


def judge_sequential(world, result, history, initial, ctx):
    current = initial
    for i, (given, now, value, _) in enumerate(history.episodes):
        ensure(given is current, f"step {i + 1} does not start from the plan of the step before it")
        current = now
    if current is None:
        return
    ensure(picture(result) == picture(current), "the returned plan is not the last step's")
    ensure(ref.close(value_of(world, result), value_of(world, current)), "the returned plan is worth something else than the last step's")


# ---------------------------------------------------------------------------------------------
def check_scripted(case, ctx):
    world = World(case["inst"], case["order"])
    pool = [plans.build_planning(world, {"routes": routes}) for routes in case["pool"]]
    base = {"fleet": world.fleet, "job": world.job}
    history = History(world)
    cls = history.recorder(scripted(world, lambda turn: pool[case["script"][turn % len(case["script"])] % len(pool)]))
    initial = None if case["initial"] is None else plans.make_result(world, pool[case["initial"] % len(pool)])
    kwargs = {} if initial is None else {"initial": initial}
    several = False
    if case["kind"] == "iterative":
        if case["seed"] is not None:
            kwargs["seed"] = case["seed"]
        result = jit.IterativeAlgorithm(algorithm_cls=cls, episodes=case["episodes"], restart_mode=case["restart"], **base, **kwargs).optimize()
        several = judge_iterative(world, result, history, initial, case["restart"], case["episodes"], ctx)
        ctx.label(f"iterative, {'restart' if case['restart'] else 'continue'}, {'given' if initial else 'no'} start")
    else:
        result = jit.SequentialAlgorithm(algorithms_cls=[(cls, {}) for _ in range(case["episodes"])], **base, **kwargs).optimize()
        ensure(len(history.episodes) == case["episodes"], f"{len(history.episodes)} steps run of {case['episodes']}")
        judge_sequential(world, result, history, initial, ctx)
        several = len({tuple(v) for _, _, v, _ in history.episodes}) >= 2
        ctx.label("sequential")
    judge_seeds(history)
    ensure(result.job is world.job and result.fleet is world.fleet, "the result is about another instance")
    ctx.nontrivial(several)


@st.composite
def scripted_cases(draw):
    case = draw(plans.plan_case(trips=(1, 5), vehicles=(1, 3), merge=draw(gen.half), wants=True))
    inst = case["inst"]
    for v in inst["vehicles"]:
        v.update(ol=None, dl=None, timeout=None, cap=20)
    for t in inst["trips"]:
        t.update(timeout=None, ol=None, dl=None)
    pool = [case.pop("routes")]
    for _ in range(draw(st.integers(1, 3))):
        groups = [[] for _ in inst["vehicles"]]
        for t in inst["trips"]:
            where = draw(st.integers(0, len(groups)))
            if where < len(groups):
                groups[where].append(t["id"])
        pool.append([{"vehicle": v["id"], "stops": plans.to_stops(inst, draw(plans.visit_order(g)), False)}
                     for v, g in zip(inst["vehicles"], groups)])
    case.update(pool=pool, script=draw(st.lists(st.integers(0, 5), min_size=1, max_size=5)), order=draw(gen.orders),
                initial=draw(st.one_of(st.none(), st.integers(0, 5))), kind=draw(st.sampled_from(["iterative", "iterative", "sequential"])),
                episodes=draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 12))), restart=draw(gen.half), seed=draw(st.one_of(st.none(), gen.seeds)))
    return case


# ---------------------------------------------------------------------------------------------
def check_search(case, ctx):
    world = World(case["inst"], case["order"])
    base = {"fleet": world.fleet, "job": world.job}
    initial = None
    if case["first"] is not None:
        initial = jit.InsertionAlgorithm(**base, **algos.insertion_kwargs(case["first"])).optimize()
    history = History(world)
    several = False
    kind = case["kind"]
    if kind == "insertion" or (kind == "local" and initial is None):
        kwargs = algos.insertion_kwargs(case["insertion"])
        kwargs.pop("seed", None)
        if initial is not None:
            kwargs["initial"] = initial
        result = jit.IterativeAlgorithm(algorithm_cls=history.recorder(jit.InsertionAlgorithm), episodes=case["episodes"],
                                        restart_mode=case["restart"], seed=case["seed"], **base, **kwargs).optimize()
        several = judge_iterative(world, result, history, initial, case["restart"], case["episodes"], ctx)
        judge_seeds(history)
    elif kind == "local":
        cls, kwargs = algos.step_class(["local", case["local"]])
        result = jit.IterativeAlgorithm(algorithm_cls=history.recorder(cls), episodes=case["episodes"], restart_mode=case["restart"],
                                        seed=case["seed"], initial=initial, **base, **kwargs).optimize()
        several = judge_iterative(world, result, history, initial, case["restart"], case["episodes"], ctx)
    elif kind == "sequential":
        steps = []
        for i, one in enumerate(case["steps"]):
            cls, kwargs = algos.step_class(one)
            if i == 0 and initial is None:
                cls, kwargs = algos.step_class(["insertion", case["insertion"]])
            steps.append((history.recorder(cls), kwargs))
        kwargs = {} if initial is None else {"initial": initial}
        result = jit.SequentialAlgorithm(algorithms_cls=steps, seed=case["seed"], **base, **kwargs).optimize()
        ensure(len(history.episodes) == len(steps), "not every step runs once")
        judge_sequential(world, result, history, initial, ctx)
        several = len({tuple(v) for _, _, v, _ in history.episodes}) >= 2
    else:                                   # compositions as episodes
        start = initial
        if start is None:
            start = jit.InsertionAlgorithm(**base, **algos.insertion_kwargs(case["insertion"])).optimize()
        steps = {} if case["default"] else {"algorithms_cls": [algos.step_class(one) for one in case["steps"]]}
        result = jit.IterativeAlgorithm(algorithm_cls=history.recorder(jit.SequentialAlgorithm), episodes=case["episodes"],
                                        restart_mode=case["restart"], seed=case["seed"], initial=start, **base, **steps).optimize()
        several = judge_iterative(world, result, history, start, case["restart"], case["episodes"], ctx)
        judge_seeds(history)
        initial = start
    c02.sound(world, result)
    ctx.label(f"{kind}, {'given' if initial else 'no'} start" + ("" if kind == "sequential" else ", restart" if case["restart"] else ", continue"))
    different = initial is not None and not ref.close(value_of(world, initial), value_of(world, result))
    ctx.nontrivial(several or different)


@st.composite
def search_cases(draw):
    inst = draw(gen.instance(trips=(1, 6), vehicles=(1, 3), tight=draw(st.sampled_from([None, None, 0, 1, 3]))))
    steps = draw(st.lists(algos.step(), min_size=1, max_size=3))
    for name, cfg in steps:
        cfg.pop("seed", None)
    case = {"inst": inst, "order": draw(gen.orders), "first": draw(st.one_of(st.none(), algos.insertion())),
            "insertion": draw(algos.insertion()), "local": draw(algos.local()), "steps": steps, "default": draw(gen.half),
            "kind": draw(st.sampled_from(["insertion", "insertion", "local", "sequential", "nested"])),
            "episodes": draw(st.integers(1, 4)), "restart": draw(gen.half), "seed": draw(gen.seeds)}
    for cfg in (case["first"], case["insertion"]):
        if cfg is not None and draw(gen.half):
            cfg["strategy"] = "tail"
    return case


# ---------------------------------------------------------------------------------------------
def check_grasp(case, ctx):
    world = World(case["inst"], case["order"])
    history = History(world)
    first = {}
    if case["first"] is not None:
        first.update(algos.insertion_kwargs(case["first"]))
        first.pop("seed", None)
    first["algorithm_cls"] = history.recorder(jit.InsertionAlgorithm)
    if case["first_episodes"] is not None:
        first["episodes"] = case["first_episodes"]
    kwargs = {} if case["episodes"] is None else {"episodes": case["episodes"]}
    if case["local"] is not None:
        kwargs["local_search_kwargs"] = dict(case["local"])
    result = jit.GraspAlgorithm(fleet=world.fleet, job=world.job, first_solution_kwargs=first, **kwargs).optimize()
    got = value_of(world, result)
    ensure(history.episodes, "no first solution is built")
    ensure(all(given is None for given, _, _, _ in history.episodes), "a first solution does not start from scratch")
    for i, (_, _, value, _) in enumerate(history.episodes):
        ensure(not_worse(got, value), lambda: f"returns a plan worth {got}, first solution {i + 1} is worth {value}")
    c01.executable(world, result)
    c02.sound(world, result)
    better = all(not not_worse(value, got) for _, _, value, _ in history.episodes)
    ctx.label("improves on every first solution" if better else "keeps a first solution")
    ctx.nontrivial(better or len({tuple(round(x, 6) for x in v) for _, _, v, _ in history.episodes}) >= 2)


@st.composite
def restricted(draw):
    """A first solution that leaves room: later insertions add trips, which may also cost bonuses or riding time."""
    cfg = draw(algos.insertion(iterators=("ranking",)))
    cfg.update(strategy="tail", neighborhood_max_size=draw(st.integers(1, 2)))
    return cfg


def check_phases(case, ctx):
    """GRASP with recorded phases: each improvement starts from the best of the solutions built just before it."""
    world = World(case["inst"], case["order"])
    history, events = History(world), []

    def phase(name, base):
        class Phase(history.recorder(base)):
            def __init__(self, *args, **kwargs):
                self.mark = kwargs.pop("mark", None)
                super().__init__(*args, **kwargs)

            def optimize(self):
                result = super().optimize()
                events.append((name, self.mark, *history.episodes[-1][:3]))
                return result

        return Phase

    first = {**algos.insertion_kwargs(case["first"]), "algorithm_cls": phase("first", jit.InsertionAlgorithm), "mark": "f"}
    first.pop("seed", None)
    if case["first_episodes"] is not None:
        first["episodes"] = case["first_episodes"]
    cls, options = algos.step_class(case["step"])
    options.pop("seed", None)
    local = {"algorithms_cls": [(phase("local", cls), {**options, "mark": "l"})]}
    kwargs = {} if case["episodes"] is None else {"episodes": case["episodes"]}
    result = jit.GraspAlgorithm(fleet=world.fleet, job=world.job, first_solution_kwargs=first, local_search_kwargs=local, **kwargs).optimize()
    got = value_of(world, result)
    ensure(all(mark == name[0] for name, mark, _, _, _ in events), "an option of a phase does not reach it, or reaches the other one")
    runs = []
    for event in events:
        if event[0] == "first" and (not runs or runs[-1][-1][0] == "local"):
            runs.append([])
        ensure(runs, "an improvement runs before a solution is built")
        runs[-1].append(event)
    for k, run in enumerate(runs):
        built = [e for e in run if e[0] == "first"]
        improved = [e for e in run if e[0] == "local"]
        ensure(improved, f"run {k + 1} of the procedure improves no solution")
        if case["first_episodes"] is not None:
            ensure(len(built) == case["first_episodes"], f"run {k + 1} builds {len(built)} solutions, asked for {case['first_episodes']}")
        ensure(all(e[2] is None for e in built), "a first solution does not start from scratch")
        best = built[0][4]
        for e in built[1:]:
            best = best if not_worse(best, e[4]) else e[4]
        pool = [picture(e[3]) for e in built if ref.close(e[4], best)]
        for n, (_, _, given, now, value) in enumerate(improved):
            ensure(given is not None, "an improvement starts from scratch")
            start = value_of(world, given)
            ensure(ref.close(start, best), lambda: f"improvement {n + 1} of run {k + 1} starts from a plan worth {start}, the best so far is worth {best}")
            ensure(picture(given) in pool, f"improvement {n + 1} of run {k + 1} starts from a plan that was not found in this run")
            pool.append(picture(now))
            best = best if not_worse(best, value) else value
            ensure(not_worse(got, value), lambda: f"returns a plan worth {got}, an improvement found {value}")
    if case["episodes"] is not None:
        ensure(len(runs) == case["episodes"], f"{len(runs)} runs of the procedure, asked for {case['episodes']}")
    ensure(any(picture(e[3]) == picture(result) for e in events), "the returned plan is none of those found")
    c02.sound(world, result)
    ctx.label(f"phases, {case['step'][0]}: {len(runs)} runs")
    ctx.nontrivial(len({tuple(round(x, 6) for x in e[4]) for e in events}) >= 2)


@st.composite
def phase_cases(draw):
    inst = draw(gen.instance(trips=(1, 6), vehicles=(1, 3), tight=draw(st.sampled_from([None, None, 0, 1, 3]))))
    return {"inst": inst, "order": draw(gen.orders), "first": draw(st.one_of(algos.insertion(), restricted(), restricted())),
            "first_episodes": draw(st.sampled_from([None, 1, 2, 5])), "episodes": draw(st.sampled_from([None, 1, 2, 4])), "step": draw(algos.step())}


@st.composite
def grasp_cases(draw):
    inst = draw(gen.instance(trips=(1, 6), vehicles=(1, 3), tight=draw(st.sampled_from([None, None, 0, 1, 3])),
                             objective=draw(st.sampled_from([None, "taxi", "hash"]))))
    return {"inst": inst, "order": draw(gen.orders), "first": draw(st.one_of(st.none(), algos.insertion(), restricted(), restricted())),
            "first_episodes": draw(st.sampled_from([None, 1, 2])), "episodes": draw(st.sampled_from([None, 1, 2])),
            "local": draw(st.one_of(st.none(), st.fixed_dictionaries({"randomized_size": st.integers(1, 3)})))}


TARGETS = [
    Target("scripted", scripted_cases(), check_scripted, 1500, 60000),
    Target("searches", search_cases(), check_search, 1200, 40000),
    Target("grasp", grasp_cases(), check_grasp, 400, 20000),
    Target("phases", phase_cases(), check_phases, 400, 20000),
]
