"""Generated algorithm configurations (plain data) and their execution on a World."""
from hypothesis import strategies as st

import gen
import plans
from world import jit

half = gen.half

ITERATORS = {"ranking": jit.RankingInsertionIterator, "stateless": jit.StatelessInsertionIterator,
             "best": jit.BestStatelessInsertionIterator}
STRATEGIES = {"tail": jit.TailInsertionStrategy, "intensive": jit.IntensiveInsertionStrategy,
              "sampling": jit.SamplingInsertionStrategy}
CRITERIA = {c.__name__: c for c in (
    jit.EarliestLastDepartureTimeRouteCriterion, jit.ShortestAveragePlannerTripDurationCriterion,
    jit.ShortestTimeRouteCriterion, jit.LongestTimeRouteCriterion, jit.LongestUtilTimeRouteCriterion,
    jit.HashCodeRouteCriterion)}
LOCAL = {"reallocation": jit.ReallocationLocalSearchStrategy, "two-opt": jit.TwoOPTLocalSearchStrategy,
         "one-shift": jit.OneShiftLocalSearchStrategy}


@st.composite
def insertion(draw, iterators=("ranking", "ranking", "stateless", "best"), full=False):
    """Keyword arguments (plain) for InsertionAlgorithm."""
    cfg = {"iterator": draw(st.sampled_from(iterators))}
    cfg["strategy"] = "intensive" if full else draw(st.sampled_from(["tail", "intensive", "sampling", None]))
    cfg["criterion"] = draw(st.sampled_from([None, None, *sorted(CRITERIA)]))
    if cfg["iterator"] == "ranking":
        cfg["neighborhood_max_size"] = None if full else draw(st.sampled_from([None, 1, 2, 3, 24]))
    if cfg["iterator"] in ("ranking", "best"):
        cfg["randomized_size"] = 1 if full else draw(st.sampled_from([1, 1, 2, 3]))
    cfg["seed"] = draw(gen.seeds)
    if not full and draw(gen.rare):
        cfg["only_feasible"] = False
    return cfg


def insertion_kwargs(cfg):
    kwargs = {"iterator_cls": ITERATORS[cfg["iterator"]]}
    if cfg["strategy"]:
        kwargs["strategy_cls"] = STRATEGIES[cfg["strategy"]]
    if cfg["criterion"]:
        kwargs["criterion_cls"] = CRITERIA[cfg["criterion"]]
    for key in ("neighborhood_max_size", "randomized_size", "seed", "only_feasible"):
        if key in cfg:
            kwargs[key] = cfg[key]
    return kwargs


@st.composite
def local(draw):
    return {"strategy": draw(st.sampled_from(sorted(LOCAL))), "threshold": draw(st.integers(1, 2))}


@st.composite
def step(draw):
    """One algorithm that continues from an initial result."""
    if draw(half):
        return ["insertion", draw(insertion())]
    return ["local", draw(local())]


@st.composite
def config(draw, kinds=("insertion", "local", "local", "steps", "iterative", "sequential", "grasp")):
    kind = draw(st.sampled_from(kinds))
    cfg = {"kind": kind}
    if kind == "insertion":
        cfg["insertion"] = draw(insertion())
    elif kind == "local":
        cfg["first"] = draw(insertion())
        cfg["local"] = draw(local())
    elif kind == "steps":
        cfg["first"] = draw(insertion())
        cfg["steps"] = draw(st.lists(step(), min_size=1, max_size=3))
    elif kind == "iterative":
        cfg["insertion"] = draw(insertion())
        cfg["episodes"] = draw(st.integers(1, 4))
        cfg["restart"] = draw(half)
        cfg["seed"] = draw(gen.seeds)
    elif kind == "sequential":
        cfg["first"] = draw(insertion())
        cfg["steps"] = draw(st.one_of(st.none(), st.lists(step(), min_size=1, max_size=3)))
        cfg["seed"] = draw(gen.seeds)
    elif kind == "grasp":
        cfg["seed"] = draw(gen.seeds)
        cfg["episodes"] = draw(st.sampled_from([None, 1, 2]))
        cfg["first"] = draw(st.one_of(st.none(), insertion()))
        cfg["first_episodes"] = draw(st.sampled_from([None, 1, 2]))
        cfg["local"] = draw(st.one_of(st.none(), st.fixed_dictionaries({"randomized_size": st.integers(1, 3)})))
        cfg["extra"] = draw(st.one_of(st.none(), insertion(iterators=("ranking",))))
    return cfg


def run_step(world, current, one):
    name, cfg = one
    if name == "insertion":
        return jit.InsertionAlgorithm(initial=current, fleet=world.fleet, job=world.job, **insertion_kwargs(cfg)).optimize()
    return jit.LocalSearchAlgorithm(initial=current, strategy_cls=LOCAL[cfg["strategy"]],
                                    no_improvement_threshold=cfg["threshold"], fleet=world.fleet, job=world.job).optimize()


def step_class(one):
    """(algorithm class, keyword arguments) as SequentialAlgorithm takes them."""
    name, cfg = one
    if name == "insertion":
        kwargs = insertion_kwargs(cfg)
        return jit.InsertionAlgorithm, kwargs
    return jit.LocalSearchAlgorithm, {"strategy_cls": LOCAL[cfg["strategy"]], "no_improvement_threshold": cfg["threshold"]}


def build(world, cfg, initial=None):
    """The algorithm object of a configuration (its initial result, when it needs one, is computed or given)."""
    base = {"fleet": world.fleet, "job": world.job}
    kind = cfg["kind"]

    def first():
        if initial is not None:
            return initial
        return jit.InsertionAlgorithm(**base, **insertion_kwargs(cfg["first"])).optimize()

    if kind == "insertion":
        extra = {} if initial is None else {"initial": initial}
        return jit.InsertionAlgorithm(**base, **extra, **insertion_kwargs(cfg["insertion"]))
    if kind == "local":
        return jit.LocalSearchAlgorithm(initial=first(), strategy_cls=LOCAL[cfg["local"]["strategy"]],
                                        no_improvement_threshold=cfg["local"]["threshold"], **base)
    if kind == "iterative":
        kwargs = insertion_kwargs(cfg["insertion"])
        kwargs.pop("seed", None)
        return jit.IterativeAlgorithm(algorithm_cls=jit.InsertionAlgorithm, episodes=cfg["episodes"],
                                      restart_mode=cfg["restart"], seed=cfg["seed"], **base, **kwargs)
    if kind == "sequential":
        kwargs = {} if cfg["steps"] is None else {"algorithms_cls": [step_class(s) for s in cfg["steps"]]}
        return jit.SequentialAlgorithm(initial=first(), seed=cfg["seed"], **base, **kwargs)
    if kind == "grasp":
        kwargs = {"seed": cfg["seed"]}
        if cfg["episodes"] is not None:
            kwargs["episodes"] = cfg["episodes"]
        if cfg["first"] is not None or cfg["first_episodes"] is not None:
            kw = {} if cfg["first"] is None else insertion_kwargs(cfg["first"])
            kw.pop("seed", None)
            if cfg["first_episodes"] is not None:
                kw["episodes"] = cfg["first_episodes"]
            kwargs["first_solution_kwargs"] = kw
        if cfg["local"] is not None:
            kwargs["local_search_kwargs"] = dict(cfg["local"])
        if cfg["extra"] is not None:
            kw = insertion_kwargs(cfg["extra"])
            kw.pop("seed", None)
            kwargs.update(kw)
        return jit.GraspAlgorithm(**base, **kwargs)
    raise AssertionError(kind)


def run(world, cfg, initial=None):
    if cfg["kind"] == "steps":
        current = initial
        if current is None:
            current = jit.InsertionAlgorithm(fleet=world.fleet, job=world.job, **insertion_kwargs(cfg["first"])).optimize()
        for one in cfg["steps"]:
            current = run_step(world, current, one)
        return current
    return build(world, cfg, initial).optimize()


def name(cfg):
    kind = cfg["kind"]
    if kind == "insertion":
        return f"insertion/{cfg['insertion']['iterator']}"
    if kind == "local":
        return f"local/{cfg['local']['strategy']}"
    return kind
