"""C20: distances and positions obey geometry, whatever was asked before."""
import math

from hypothesis import strategies as st

import gen
import ref
from core import Target, ensure
from world import jit

ID = "C20"
ORACLE = "the metric's definition on the raw coordinates, metric laws, and a set model of the registered positions"
RULE = ("A case is a dimension, a metric, a pool of 1-6 points (often coinciding, also through other number types) and a sequence of "
        "registrations, comparisons and distance / time questions in any order, repeated, through trips, services and positions, over one or two "
        "coordinate spaces. Non-trivial: at least three different points and four questions.")
ASSUMPTIONS = ["coordinates are finite numbers up to 1e6 in size; both ends of a distance have the same dimension"]


TIMES = [(0, 5, 0), (0, 5, 0), (0, 5, 1), (1, 5, 0), (0, 6, 0), (0, math.inf, 0), (0, math.inf, 0.0)]


def check(case, ctx):
    metric = getattr(jit.DistanceMetric, case["metric"].upper())
    surfaces = [jit.GeometricSurface(metric) for _ in range(2)]
    points = [tuple(p) for p in case["points"]]
    registered = [set(), set()]
    pool = {}
    scale = max([1.0] + [abs(x) for p in points for x in p])
    tol = 1e-9 * scale * 10

    def position(s, i):
        pos = surfaces[s].get_or_create_position(list(points[i]) if (i + s) % 2 else points[i])
        registered[s].add(points[i])
        ensure(tuple(pos.coordinates) == points[i], "a position has other coordinates than asked for")
        ensure(pos.surface is surfaces[s], "a position belongs to another coordinate space")
        return pos

    def count(s):
        ensure({tuple(p.coordinates) for p in surfaces[s].positions} == registered[s]
               and len(surfaces[s].positions) == len(registered[s]),
               lambda: f"{len(surfaces[s].positions)} positions registered for {len(registered[s])} distinct points")

    n = len(points)
    for op in case["ops"]:
        kind, s, i, j, k = op
        i, j, k = i % n, j % n, k % n
        a, b = position(s, i), position(s, j)
        want = ref.dist(case["metric"], points[i], points[j])
        if kind == "eq":
            ensure((a == b) == (points[i] == points[j]) and (a != b) == (points[i] != points[j]),
                   lambda: f"positions {points[i]} and {points[j]} compare equal={a == b}")
            ensure(points[i] != points[j] or hash(a) == hash(b), "equal positions hash differently")
            ensure((b in {a}) == (points[i] == points[j]), "set membership of positions")
            if case["spaces"]:              # a position of another dimension is another position
                other = points[j] + ((0,) if k % 2 else (points[j][-1],)) if k % 3 or len(points[j]) == 1 else points[j][:-1]
                c = surfaces[s].get_or_create_position(other)
                registered[s].add(other)
                ensure(not a == c and a != c and not c == a and c not in {a, b},
                       lambda: f"positions {points[i]} and {other} compare equal")
                count(s)
            continue
        if kind == "services":
            facts = [(points[x],) + TIMES[(x + y) % len(TIMES)] for x, y in ((i, k), (j, case["turn"] + k))]
            x, y = (jit.Service(p, *fact[1:]) for p, fact in zip((a, b), facts))
            ensure((x == y) == (facts[0] == facts[1]) and (x != y) == (facts[0] != facts[1]),
                   lambda: f"services {facts[0]} and {facts[1]} compare equal={x == y}")
            ensure(facts[0] != facts[1] or hash(x) == hash(y), "equal services hash differently")
            ensure((y in {x}) == (facts[0] == facts[1]), "set membership of services")
            continue
        if kind == "distance":
            got = [a.distance_to(b), surfaces[s].distance(a, b)]
        elif kind == "time":
            got = [a.time_to(b), a.time_to(b, 7.5), surfaces[s].time(a, b)]
        elif kind == "service":
            x, y = jit.Service(a), jit.Service(b)
            got = [x.distance_to(y), x.time_to(y)]
        else:
            trip = jit.Trip("t", jit.Service(a), jit.Service(b))
            got = [trip.distance, trip.duration(3), trip.distance]
        for value in got:
            ensure(value >= 0, lambda: f"distance {value} from {points[i]} to {points[j]}")
            ensure(abs(value - want) <= tol, lambda: f"{kind} from {points[i]} to {points[j]} is {value}, geometry says {want}")
            ensure(points[i] != points[j] or value == 0, "distance from a point to itself")
            # (tiny coordinate differences may square to zero, so the converse is judged above the rounding level)
            ensure(points[i] == points[j] or value > 0 or want < 1e-100, "zero distance between different points")
        c = position(s, k)
        ensure(abs(b.distance_to(a) - got[0]) <= tol, lambda: f"distance between {points[i]} and {points[j]} depends on the direction")
        ensure(got[0] <= a.distance_to(c) + c.distance_to(b) + tol, "triangle inequality")
        ensure(a.distance_to(b) == got[0], "asking again gives another distance")
        count(s)
        pool.setdefault((s, i, j), got[0])
        ensure(abs(pool[(s, i, j)] - got[0]) <= tol, "asking again gives another distance")
    count(0)
    count(1)
    raw = metric(points[0], points[-1])
    ensure(abs(raw - ref.dist(case["metric"], points[0], points[-1])) <= tol, "the metric itself")
    ctx.label(f"{case['metric']}, dimension {len(points[0])}")
    if len(set(points)) < len(points):
        ctx.label("coinciding points")
    ctx.nontrivial(len(set(points)) >= 3 and len(case["ops"]) >= 4)


@st.composite
def cases(draw):
    dim = draw(st.sampled_from([1, 2, 2, 2, 3, 4]))
    number = st.one_of(st.integers(-3, 3), st.integers(-3, 3), st.integers(-1000, 1000).map(float),
                       st.floats(-1e6, 1e6, allow_nan=False, allow_subnormal=False))
    points = draw(st.lists(st.lists(number, min_size=dim, max_size=dim), min_size=draw(st.sampled_from([1, 3, 3])), max_size=6))
    if draw(gen.half):                      # points that differ in one coordinate only
        for _ in range(draw(st.integers(1, 3))):
            point = list(points[0])
            point[draw(st.integers(0, dim - 1))] = draw(st.integers(-2, 2))
            points.append(point)
    op = st.tuples(st.sampled_from(["distance", "time", "service", "trip", "eq", "services"]), st.integers(0, 1), st.integers(0, 8),
                   st.integers(0, 8), st.integers(0, 8)).map(list)
    return {"spaces": draw(gen.half), "turn": draw(st.sampled_from([0, 0, 1, 2, 7])), "metric": draw(st.sampled_from(["manhattan", "euclidean"])), "points": points,
            "ops": draw(st.lists(op, min_size=draw(st.sampled_from([1, 5])), max_size=14))}


TARGETS = [Target("geometry", cases(), check, 4000, 200000)]
