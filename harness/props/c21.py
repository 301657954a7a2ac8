"""C21: the exact algorithm returns an optimal executable plan."""
import itertools
import os
import tempfile

from hypothesis import strategies as st

import gen
import plans
import ref
from core import Target, ensure
from props import c01, c02
from world import World, jit, snapshot

ID = "C21"
ORACLE = "exhaustive enumeration of assignments and visit orders, each decided by a difference-constraint system"
RULE = ("A case is a tiny instance (0-3 trips, 0-3 vehicles, own or shared depots, limits drawn around a hidden plan so that mostly all "
        "trips can be served) and a set-iteration order. Non-trivial: at least two trips.")
ASSUMPTIONS = ["instances servable only by using the 1e-3 tolerance of the time limits are skipped"]


def orders(ids):
    """Every sequence of visits with each pickup before its delivery."""
    def rec(pending, open_, done):
        if not pending and not open_:
            yield done
        for t in pending:
            yield from rec(pending - {t}, open_ | {t}, done + [("P", t)])
        for t in open_:
            yield from rec(pending, open_ - {t}, done + [("D", t)])

    yield from rec(frozenset(ids), frozenset(), [])


def schedulable(inst, vehicle, order, slack):
    """Is there any schedule of the visits (waiting anywhere) within all limits loosened by slack?"""
    trips = ref.trips_by_id(inst)
    nodes = [("depot", ref.depot_origin(vehicle), 0, vehicle["oe"], ref.INF)]
    load = 0
    for kind, t in order:
        x = trips[t]
        if kind == "P":
            nodes.append((kind, tuple(x["o"]), x["od"], x["oe"], ref.inf(x["ol"])))
            load += x["cap"]
        else:
            nodes.append((kind, tuple(x["d"]), x["dd"], x["de"], ref.inf(x["dl"])))
            load -= x["cap"]
        if load > vehicle["cap"] + 1e-9:
            return False
    nodes.append(("depot", ref.depot_destination(vehicle), 0, vehicle["de"] if vehicle.get("d") is not None else vehicle["oe"],
                  ref.depot_latest(vehicle)))
    n = len(nodes)
    edges = []                              # s[b] - s[a] <= w; node n is time zero
    for i, (_, pos, service, low, high) in enumerate(nodes):
        edges.append((i, n, -low + slack))
        if high < ref.INF:
            edges.append((n, i, high + slack))
        if i:
            _, before, served, _, _ = nodes[i - 1]
            edges.append((i, i - 1, -(served + ref.drive(inst["metric"], before, pos)) + slack))
    where = {v: i + 1 for i, v in enumerate(order)}
    for kind, t in order:
        limit = ref.inf(trips[t]["timeout"])
        if kind == "P" and limit < ref.INF:
            edges.append((where["P", t], where["D", t], limit + trips[t]["od"] + slack))
    if ref.inf(vehicle["timeout"]) < ref.INF:
        edges.append((0, n - 1, vehicle["timeout"] + slack))
    d = [0.0] * (n + 1)
    for _ in range(n + 1):
        changed = False
        for a, b, w in edges:
            if d[a] + w < d[b] - 1e-9:
                d[b] = d[a] + w
                changed = True
        if not changed:
            return True
    return False


def length(inst, vehicle, order):
    trips = ref.trips_by_id(inst)
    points = [ref.depot_origin(vehicle)] + [tuple(trips[t]["o" if k == "P" else "d"]) for k, t in order] + [ref.depot_destination(vehicle)]
    return sum(ref.dist(inst["metric"], a, b) for a, b in zip(points, points[1:]))


def optimum(inst, slack):
    ids = sorted(ref.trips_by_id(inst))
    best = {}
    for v in inst["vehicles"]:
        for size in range(len(ids) + 1):
            for group in itertools.combinations(ids, size):
                cost = ref.INF
                for order in orders(group):
                    far = length(inst, v, order)
                    if far < cost and schedulable(inst, v, order, slack):
                        cost = far
                best[v["id"], group] = cost
    total = ref.INF
    for assignment in itertools.product([v["id"] for v in inst["vehicles"]], repeat=len(ids)):
        groups = {v["id"]: tuple(t for t, a in zip(ids, assignment) if a == v["id"]) for v in inst["vehicles"]}
        total = min(total, sum(best[v, g] for v, g in groups.items()))
    return total


def driven(world, result):
    return sum(ref.route_distance(world.inst, world.vehicle_data[r.vehicle.identifier], snapshot(r)) for r in result.routes)


def check(case, ctx):
    inst = case["inst"]
    exact = inst["metric"] == "manhattan"
    best, loose = optimum(inst, 0.0 if exact else -1e-3), optimum(inst, 3e-3)
    impossible = loose == ref.INF
    if best == ref.INF and not impossible:
        ctx.label("skipped: borderline")
        return
    world = World(inst, case["order"])
    here = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="verif-c21-") as folder:
        os.chdir(folder)
        try:
            result = jit.MilpAlgorithm(fleet=world.fleet, job=world.job).optimize()
        finally:
            os.chdir(here)
    served = c02.sound(world, result)
    c01.executable(world, result)
    if impossible:
        ctx.label("not all trips can be served")
        return
    missing = sorted(set(ref.trips_by_id(inst)) - set(served))
    ensure(not missing, lambda: f"trips {missing} are not served")
    far = driven(world, result)
    ensure(far <= best + 1e-4 * max(1, best), lambda: f"drives {far}, possible {best}")
    ensure(far >= loose - 1e-4 * max(1, best), lambda: f"drives {far}, which no executable plan can ({loose})")
    used = sum(1 for r in result.routes if any(True for _ in r.planned_trips))
    ctx.label(f"{len(inst['trips'])} trips, {len(inst['vehicles'])} vehicles")
    ctx.label(f"{used} vehicles used")
    spots = [tuple(t[k]) for t in inst["trips"] for k in "od"] + [tuple(v["o"]) for v in inst["vehicles"][:1]]
    if len(set(spots)) < len(spots):
        ctx.label("coincident positions")
    ctx.nontrivial(len(inst["trips"]) >= 2)


@st.composite
def cases(draw, trips=(1, 3), vehicles=(1, 2), tight=False, metric=None):
    """Some limits drawn around a hidden plan that serves everything (so that it can be served)."""
    metric = metric or draw(st.sampled_from(["manhattan", "euclidean"]))
    inst = draw(gen.instance(trips=trips, vehicles=vehicles, metric=metric, objective="dial", zero_cap=draw(gen.rare),
                             span=draw(st.sampled_from([2, 8]))))
    vs = inst["vehicles"]
    for v in vs:
        v.update(ol=None, dl=None, timeout=None)
        if draw(gen.half):
            v["oe"] = vs[0]["oe"]
    loose = 0 if tight else draw(st.integers(0, 3))
    for t in inst["trips"]:
        t.update(ol=None, dl=None, timeout=None)
        if loose != 0:
            t.update(oe=draw(st.sampled_from([0, 0, t["oe"]])), de=draw(st.sampled_from([0, 0, t["de"]])))
    groups = {v["id"]: [] for v in vs}
    for t in inst["trips"]:
        groups[draw(st.sampled_from(vs))["id"]].append(t["id"])
    for v in vs:
        route = {"vehicle": v["id"], "stops": plans.to_stops(inst, draw(plans.visit_order(groups[v["id"]])), False)}
        for s in route["stops"]:
            if draw(gen.rare):
                s["want"] = draw(st.integers(0, 80))
        for _ in range(3 if tight else 1 if loose else 2):
            plans.calibrate(draw, inst, route, [0, 1, 4, 15] if tight else plans.GENTLE)
    return {"inst": inst, "order": draw(gen.orders)}


@st.composite
def idle_cases(draw):
    """Nothing to serve, or nobody to serve it."""
    if draw(gen.half):
        return draw(cases(trips=(0, 0)))
    return {"inst": draw(gen.instance(trips=(0, 2), vehicles=(0, 0), objective="dial")), "order": draw(gen.orders)}


TARGETS = [
    Target("plans", cases(), check, 300, 2000),
    Target("crowd", cases(trips=(2, 3), vehicles=(2, 3), tight=True), check, 150, 900),
    Target("idle", idle_cases(), check, 15, 60),
]
