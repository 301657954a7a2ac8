"""Hypothesis strategies producing plain (JSON-able) instances, configurations and operation sequences."""
import math

from hypothesis import strategies as st

from ref import longest

ints = st.integers
rare = st.integers(0, 7).map(lambda x: x == 7)
half = st.booleans()
LOADS = [1, 1, 2, 3, 1, 2, 0.1, 0.7, 0.3, 1.04]
orders = st.integers(0, 2 ** 20)
seeds = st.one_of(st.just(0), st.integers(0, 99), st.integers(0, 99), st.integers(0, 99))


def coords(span):
    return st.tuples(ints(-span, span), ints(-span, span)).map(list)


@st.composite
def trip(draw, ident, metric, span=8, horizon=60, mixed_service=True, bonus=True, zero_cap=False, tight=None):
    o = draw(coords(span))
    d = draw(coords(span))
    far = longest(metric, o, d)
    far_up = math.ceil(far)
    od = draw(st.sampled_from([0, 0, 1, 2, 5]))
    dd = od
    if mixed_service and draw(half):
        dd = draw(st.sampled_from([0, 1, 3, 6]))
    mode = draw(ints(0, 5)) if tight is None else tight
    oe, ol, de, dl, timeout = 0, None, 0, None, None
    if mode == 0:           # unconstrained
        pass
    elif mode in (1, 2):    # pickup window
        oe = draw(ints(0, horizon))
        ol = oe + draw(st.sampled_from([0, 3, 8, 20, 60]))
    elif mode == 3:         # delivery window
        de = draw(ints(0, horizon)) + far_up
        dl = de + draw(st.sampled_from([0, 3, 8, 20, 60]))
    else:                   # both
        oe = draw(ints(0, horizon))
        ol = oe + draw(st.sampled_from([2, 8, 20, 60]))
        de = oe + far_up + draw(ints(-5, 15))
        de = max(de, 0)
        dl = de + draw(st.sampled_from([2, 8, 20, 60]))
    if draw(half):
        timeout = far_up + draw(st.sampled_from([0, 1, 4, 10, 25]))
    return {
        "id": ident, "o": o, "d": d, "oe": oe, "ol": ol, "od": od, "de": de, "dl": dl, "dd": dd,
        "cap": draw(st.sampled_from(([0] if zero_cap else []) + LOADS)), "timeout": timeout,
        "bonus": draw(st.sampled_from([0, 0, 2, 7])) if bonus else 0,
    }


@st.composite
def vehicle(draw, ident, span=8, roomy=True, early=True):
    v = {"id": ident, "o": draw(coords(span)), "oe": 0, "ol": None, "d": None, "de": 0, "dl": None,
         "cap": draw(ints(1, 5)), "timeout": None}
    if early and draw(half):
        v["oe"] = draw(ints(0, 25))
    if draw(rare):
        v["ol"] = draw(ints(30, 160))
    if draw(rare) or draw(rare):
        v["d"] = draw(coords(span))
        if draw(half):
            v["dl"] = draw(ints(40, 200))
    if draw(rare) or (not roomy and draw(half)):
        v["timeout"] = draw(ints(20, 150))
    if v["d"] is not None:              # every vehicle can at least drive from its origin to its destination
        far = sum(abs(a - b) for a, b in zip(v["o"], v["d"]))
        if v["dl"] is not None:
            v["dl"] = max(v["dl"], v["oe"] + far)
        if v["timeout"] is not None:
            v["timeout"] = max(v["timeout"], far)
    return v


@st.composite
def instance(draw, trips=(0, 6), vehicles=(1, 3), metric=None, objective=None, homogeneous=None, span=8,
             horizon=60, early=True, mixed_service=True, zero_cap=False, tight=None):
    metric = metric or draw(st.sampled_from(["manhattan", "euclidean"]))
    objective = objective or draw(st.sampled_from(["dial", "dial", "taxi", "hash"]))
    n = draw(ints(*trips))
    m = draw(ints(*vehicles))
    same = draw(half) if homogeneous is None else homogeneous
    if same:
        base = draw(vehicle("0", span=span, early=early))
        vs = [dict(base, id=str(i)) for i in range(m)]
    else:
        vs = [draw(vehicle(str(i), span=span, early=early)) for i in range(m)]
    ts = [
        draw(trip(str(i), metric, span=span, horizon=horizon, mixed_service=mixed_service, zero_cap=zero_cap,
                  tight=tight))
        for i in range(n)
    ]
    if draw(rare) or draw(rare):            # few places: coinciding stops, trips of no length, stops at a depot
        spots = [vs[0]["o"] if vs else [0, 0]] + [draw(coords(span)) for _ in range(2)]
        for t in ts:
            o, d = draw(st.sampled_from(spots)), draw(st.sampled_from(spots))
            longer = max(0, math.ceil(longest(metric, o, d)) - math.ceil(longest(metric, t["o"], t["d"])))
            t.update(o=list(o), d=list(d))
            for key in ("dl", "timeout"):   # stays servable on its own
                if t[key] is not None:
                    t[key] += longer
    return {"metric": metric, "objective": objective, "vehicles": vs, "trips": ts}
