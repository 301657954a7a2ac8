"""C14: HashCode files load into exactly the instance they describe."""
from hypothesis import strategies as st

import gen
from core import Target, ensure
from props import loading
from world import jit

ID = "C14"
ORACLE = "write-then-load round trip of generated files"
RULE = ("A case is the content of a HashCode 2018 file (1-6 vehicles, 0-12 rides, coinciding crossings), the way its numbers are "
        "written and the order in which fleet, job and surface are read. Non-trivial: at least two rides.")
ASSUMPTIONS = []


def check(case, ctx):
    how, style = case["how"], case["how"]["style"]
    rides = case["rides"]
    rows = [[case["rows"], case["columns"], case["vehicles"], len(rides), case["bonus"], case["steps"]]]
    rows += [[*r["o"], *r["d"], r["s"], r["f"]] for r in rides]
    loaded = loading.Loaded(loading.text(rows, how), jit.HashCodeLoaderFormatter, how)

    def w(x):
        return loading.as_written(x, style)

    def point(p):
        return tuple(w(x) for x in p)

    vehicles = loading.same_set(list(loaded.fleet.vehicles), [str(i) for i in range(case["vehicles"])], "vehicles")
    for v in vehicles.values():
        loading.equal(tuple(v.origin_position.coordinates), (0, 0), "vehicle origin")
        loading.equal(v.capacity, 1, "vehicle capacity")
        loading.equal(v.origin_earliest, 0, "vehicle availability")
        loading.equal(v.origin_latest, w(case["steps"]), "last step")
    trips = loading.same_set(list(loaded.job.trips), [str(i) for i in range(len(rides))], "trips")
    for i, r in enumerate(rides):
        t = trips[str(i)]
        name = f"ride {i}: "
        loading.equal(tuple(t.origin_position.coordinates), point(r["o"]), name + "start")
        loading.equal(tuple(t.destination_position.coordinates), point(r["d"]), name + "end")
        loading.equal(t.origin_earliest, w(r["s"]), name + "earliest start")
        loading.equal(t.destination_latest, w(r["f"]), name + "latest finish")
        away = abs(r["o"][0] - r["d"][0]) + abs(r["o"][1] - r["d"][1])
        ensure(t.origin_latest > r["f"] - away - 1e-6, name + f"has to start by {t.origin_latest!r}")
        loading.equal(t.on_time_bonus, w(case["bonus"]), name + "bonus")
        loading.equal((t.origin_duration, t.destination_duration), (0, 0), name + "service times")
        ensure(not t.empty, name + "counts as empty")
    ensure(isinstance(loaded.job.objective, jit.HashCodeObjective), "the objective is not the HashCode one")
    loading.spaces(loaded, {(0, 0)} | {point(r[k]) for r in rides for k in "od"}, "manhattan")
    ctx.label(f"vehicles {min(case['vehicles'], 3)}")
    ctx.nontrivial(len(rides) >= 2)


@st.composite
def cases(draw):
    high = draw(st.sampled_from([3, 30, 10000]))
    spot = st.tuples(st.integers(0, high), st.integers(0, high)).map(list)
    rides = []
    for _ in range(draw(st.integers(0, 12))):
        s = draw(st.integers(0, 1000))
        o, d = draw(spot), draw(spot)
        rides.append({"o": o, "d": d, "s": s, "f": s + abs(o[0] - d[0]) + abs(o[1] - d[1]) + draw(st.integers(0, 500))})
    return {"rows": high + 1, "columns": high + 1, "vehicles": draw(st.integers(1, 6)), "bonus": draw(st.integers(0, 25)),
            "steps": draw(st.one_of(st.integers(1, 5000), st.just(10 ** 9))), "rides": rides, "how": draw(loading.layout())}


TARGETS = [Target("files", cases(), check, 2500, 100000)]
