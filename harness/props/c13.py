"""C13: Cordeau-Laporte files load into exactly the instance they describe."""
from hypothesis import strategies as st

import gen
from core import Target, ensure
from props import loading
from world import jit

ID = "C13"
ORACLE = "write-then-load round trip of generated files"
RULE = ("A case is the content of a Cordeau-Laporte file (1-6 vehicles, 0-9 requests, fractional and negative coordinates, whole and fractional times and loads, coinciding "
        "positions, optionally a closing depot row and further rows, rows labelled from 0 or from another number), the way its numbers are written and the order in which fleet, job and surface are read. "
        "Non-trivial: at least two requests.")
ASSUMPTIONS = ["the header is 'vehicles, request rows, maximum duration, capacity, ride limit'; delivery rows carry the negated load"]


def check(case, ctx):
    how, style = case["how"], case["how"]["style"]
    n = len(case["requests"])
    rows = [[case["m"], 2 * n, case["duration"], case["capacity"], case["ride"]]]
    first = case["first"]
    rows.append([first, *case["depot"], 0, 0, 0, 1440])
    for i, r in enumerate(case["requests"]):
        rows.append([first + i + 1, *r["o"], r["od"], r["load"], r["oe"], r["ol"]])
    for i, r in enumerate(case["requests"]):
        rows.append([first + n + i + 1, *r["d"], r["dd"], -r["load"], r["de"], r["dl"]])
    if case["closing"]:
        rows.append([first + 2 * n + 1, *case["depot"], 0, 0, 0, 1440])
    cls = None if how["default"] else jit.CordeauLaporteLoaderFormatter
    loaded = loading.Loaded(loading.text(rows, how), cls, how)

    def w(x):
        return loading.as_written(x, style)

    def point(p):
        return tuple(w(x) for x in p)

    vehicles = loading.same_set(list(loaded.fleet.vehicles), [str(i) for i in range(case["m"])], "vehicles")
    for v in vehicles.values():
        loading.equal(tuple(v.origin_position.coordinates), point(case["depot"]), "vehicle origin")
        loading.equal(tuple(v.destination_position.coordinates), point(case["depot"]), "vehicle destination")
        loading.equal(v.capacity, w(case["capacity"]), "vehicle capacity")
        loading.equal(v.timeout, w(case["duration"]), "maximum route duration")
    trips = loading.same_set(list(loaded.job.trips), [str(i + 1) for i in range(n)], "trips")
    for i, r in enumerate(case["requests"]):
        t = trips[str(i + 1)]
        name = f"trip {i + 1}: "
        loading.equal(tuple(t.origin_position.coordinates), point(r["o"]), name + "pickup position")
        loading.equal(tuple(t.destination_position.coordinates), point(r["d"]), name + "delivery position")
        loading.equal((t.origin.earliest, t.origin.latest), (w(r["oe"]), w(r["ol"])), name + "pickup window")
        loading.equal((t.destination.earliest, t.destination.latest), (w(r["de"]), w(r["dl"])), name + "delivery window")
        loading.equal((t.origin_duration, t.destination_duration), (w(r["od"]), w(r["dd"])), name + "service times")
        loading.equal(t.capacity, w(r["load"]), name + "load")
        loading.equal(t.timeout, w(case["ride"]), name + "ride limit")
    ensure(isinstance(loaded.job.objective, jit.DialARideObjective), "the objective is not dial-a-ride")
    points = {point(case["depot"])} | {point(r[k]) for r in case["requests"] for k in "od"}
    loading.spaces(loaded, points, "euclidean")
    ctx.label(f"vehicles {min(case['m'], 3)}")
    ctx.nontrivial(n >= 2)


number = st.one_of(st.integers(-10, 10), st.integers(-10000, 10000).map(lambda x: x / 1000))


def amount(low, high):
    """Whole numbers, sometimes quarters."""
    return st.one_of(st.integers(low, high), st.integers(low, high), st.integers(4 * low, 4 * high).map(lambda x: x / 4))


@st.composite
def cases(draw):
    spots = draw(st.lists(st.tuples(number, number).map(list), min_size=1, max_size=12))
    requests = []
    for _ in range(draw(st.sampled_from([0, 1, 2, 3, 4, 5, 7, 9]))):
        oe, de = draw(amount(0, 600)), draw(amount(0, 600))
        requests.append({"o": draw(st.sampled_from(spots)), "d": draw(st.sampled_from(spots)), "od": draw(amount(0, 12)),
                         "dd": draw(amount(0, 12)), "load": draw(amount(0, 6)), "oe": oe, "ol": oe + draw(amount(0, 300)),
                         "de": de, "dl": de + draw(amount(0, 900))})
    return {"m": draw(st.integers(1, 6)), "duration": draw(amount(0, 1440)), "capacity": draw(amount(1, 12)),
            "ride": draw(amount(0, 120)), "depot": draw(st.sampled_from(spots)), "requests": requests, "closing": draw(gen.half),
            "first": draw(st.sampled_from([0, 0, 0, 1, 100])),
            "how": draw(loading.layout())}


TARGETS = [Target("files", cases(), check, 2500, 100000)]
