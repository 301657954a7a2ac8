"""C19: derived trip windows exclude no executable service and are tight."""
from hypothesis import strategies as st

import gen
import ref
from core import Target, ensure
from world import World, jit

ID = "C19"
ORACLE = "search over the services a trip allows, and the bounds the two ends of a trip imply for each other"
RULE = ("A case is one trip (positions, windows, service times, ride limit; every bound possibly missing) and a reading order of its four "
        "derived bounds, with services of the trip sampled inside the original limits. Non-trivial: some derived bound differs from the "
        "original one.")
ASSUMPTIONS = ["a service is a pickup start p and a delivery start q with q between p + service + direct time and p + service + ride limit"]
NAMES = ("origin_earliest", "origin_latest", "destination_earliest", "destination_latest")


def build(case):
    surface = jit.GeometricSurface(getattr(jit.DistanceMetric, case["metric"].upper()))
    t = case["trip"]

    def kwargs(**kw):
        return {k: v for k, v in kw.items() if v is not None}

    return jit.Trip(
        t["id"],
        jit.Service(surface.get_or_create_position(t["o"]), **kwargs(earliest=t["oe"], latest=t["ol"], duration=t["od"])),
        jit.Service(surface.get_or_create_position(t["d"]), **kwargs(earliest=t["de"], latest=t["dl"], duration=t["dd"])),
        **kwargs(timeout=t["timeout"]))


def check(case, ctx):
    t = case["trip"]
    trip = build(case)
    got = {}
    for i in case["reads"]:
        got[NAMES[i]] = getattr(trip, NAMES[i])
    for name in NAMES:
        value = getattr(trip, name)
        ensure(name not in got or ref.close(got[name], value), f"{name} changes between reads")
        got[name] = value
    oe, ol, de, dl = (got[n] for n in NAMES)
    tol = 1e-6
    OE, OL, DE, DL = t["oe"] or 0, ref.inf(t["ol"]), t["de"] or 0, ref.inf(t["dl"])
    ensure(oe >= OE - tol and ol <= OL + tol, lambda: f"the pickup window [{OE}, {OL}] is widened to [{oe}, {ol}]")
    ensure(de >= DE - tol and dl <= DL + tol, lambda: f"the delivery window [{DE}, {DL}] is widened to [{de}, {dl}]")
    far = ref.dist(case["metric"], t["o"], t["d"])
    od, ride = t["od"] or 0, ref.inf(t["timeout"])

    # sound: every executable service stays inside the derived windows. The set of executable (p, q) is a polygon;
    # its extreme and random points are tried.
    def valid(p, q):
        return (OE <= p <= OL and DE <= q <= DL and q >= p + od + far and q <= p + od + ride)

    low, high = max(OE, 0), min(OL, 500 + OE + DE)
    points = {OE, DE, DE - od - ride if ride < ref.INF else OE, DE - od - far, high, DL - od - far if DL < ref.INF else high}
    points |= {low + (high - low) * f for f in case["fractions"]} if high >= low else set()
    tried = 0
    for p in points:
        q_low, q_high = max(DE, p + od + far), min(DL, p + od + ride)
        for q in {q_low, q_high if q_high < ref.INF else q_low + 100, (q_low + min(q_high, q_low + 50)) / 2}:
            if not valid(p, q):
                continue
            tried += 1
            ensure(oe - tol <= p <= ol + tol, lambda: f"pickup at {p} (delivery at {q}) is executable but outside [{oe}, {ol}]")
            ensure(de - tol <= q <= dl + tol, lambda: f"delivery at {q} (pickup at {p}) is executable but outside [{de}, {dl}]")
    # tight: each bound is the tightest the other end implies
    want = ref.tightened({"metric": case["metric"]}, dict(t, oe=OE, de=DE, od=od))
    for name, value, exact in zip(NAMES, (oe, ol, de, dl), want):
        ensure(ref.close(value, exact), lambda: f"{name} is {value}, the other end of the trip implies {exact}")
    changed = [n for n, v, o in zip(NAMES, (oe, ol, de, dl), (OE, OL, DE, DL)) if v != o]
    for n in changed:
        ctx.label(f"narrowed: {n}")
    ctx.label("executable services tried", tried)
    ctx.nontrivial(bool(changed))


number = st.one_of(st.integers(0, 100), st.integers(0, 20), st.floats(0, 200, allow_nan=False))


@st.composite
def cases(draw):
    maybe = st.one_of(st.none(), number)
    oe, de = draw(maybe), draw(maybe)
    ol, dl = draw(maybe), draw(maybe)
    if ol is not None and draw(gen.half):
        ol = (oe or 0) + ol
    if dl is not None and draw(gen.half):
        dl = (de or 0) + dl
    return {"metric": draw(st.sampled_from(["manhattan", "euclidean"])),
            "trip": {"id": "x", "o": draw(gen.coords(12)), "d": draw(gen.coords(12)), "oe": oe, "ol": ol, "de": de, "dl": dl,
                     "od": draw(st.one_of(st.none(), st.integers(0, 20))), "dd": draw(st.one_of(st.none(), st.integers(0, 20))),
                     "timeout": draw(maybe)},
            "reads": draw(st.lists(st.integers(0, 3), max_size=4)),
            "fractions": draw(st.lists(st.floats(0, 1), max_size=6))}


TARGETS = [Target("windows", cases(), check, 6000, 300000)]
