"""C18: the plotted graph contains exactly the plan's legs and the job's positions."""
import os
import tempfile
from pathlib import Path

from hypothesis import strategies as st

import algos
import gen
import plans
from core import Target, ensure
from world import World, jit

import matplotlib
matplotlib.use("Agg")
import matplotlib.figure  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.collections import PathCollection  # noqa: E402
from matplotlib.patches import FancyArrowPatch  # noqa: E402

ID = "C18"
ORACLE = "artists of the saved or shown figure against the legs and positions of the plan's stops"
RULE = ("A case is one to three results (hand-made plans with idle routes, shared legs, coinciding positions, empty plans, empty jobs; or "
        "computed ones) drawn one after another to files (or to the screen stand-in). Non-trivial: at least one served trip, or several drawings.")
ASSUMPTIONS = ["the drawing is read back from matplotlib's arrows, markers and texts in the figure that is saved or shown"]


def expected(result):
    legs, visited = {}, set()
    for route in result.routes:
        stops = [tuple(s.position.coordinates) for s in route.stops]
        visited.update(stops)
        for a, b in zip(stops, stops[1:]):
            legs.setdefault((a, b), set()).add(route.vehicle.identifier)
    ends = {}
    for trip in result.job.trips:
        ends.setdefault(tuple(trip.origin_position.coordinates), set()).add(f"+{trip.identifier}")
        ends.setdefault(tuple(trip.destination_position.coordinates), set()).add(f"-{trip.identifier}")
    return legs, visited | set(ends), ends


def read(figure):
    arrows, nodes, texts = [], [], []
    for axes in figure.axes:
        for p in axes.patches:
            if isinstance(p, FancyArrowPatch):
                a, b = p._posA_posB
                arrows.append(((tuple(map(float, a)), tuple(map(float, b))), tuple(round(float(x), 6) for x in p.get_edgecolor())))
        for c in axes.collections:
            if isinstance(c, PathCollection):
                nodes += [tuple(map(float, x)) for x in c.get_offsets()]
        for t in axes.texts:
            if t.get_text():
                texts.append((tuple(map(float, t.get_position())), t.get_text()))
    return arrows, nodes, texts


def floats(position):
    return tuple(map(float, position))


def judge(figure, result, which):
    legs, positions, ends = expected(result)
    arrows, nodes, texts = read(figure)
    want = sorted((floats(a), floats(b)) for a, b in legs)
    ensure(sorted(e for e, _ in arrows) == want,
           lambda: f"{which}: arrows {sorted(e for e, _ in arrows)[:6]}..., legs {want[:6]}... ({len(arrows)} against {len(want)})")
    ensure(sorted(nodes) == sorted(map(floats, positions)), lambda: f"{which}: nodes {sorted(nodes)}, positions {sorted(positions)}")
    labels = {}
    for position, text in texts:
        ensure(position not in labels, f"{which}: two labels at {position}")
        labels[position] = text
    for p in positions:
        got = labels.pop(floats(p), None)
        if p in ends:
            ensure(got in ends[p], lambda: f"{which}: {p} is labelled {got}, trip ends there: {sorted(ends[p])}")
        else:
            ensure(got is None, lambda: f"{which}: {p} is labelled {got} although no trip ends there")
    ensure(not labels, lambda: f"{which}: stray labels {labels}")
    colour = {}
    legs = {(floats(a), floats(b)): users for (a, b), users in legs.items()}
    for edge, c in arrows:
        if len(legs[edge]) == 1:
            user = next(iter(legs[edge]))
            ensure(colour.setdefault(user, c) == c, f"{which}: the route of vehicle {user} has two colours")
    ensure(len(set(colour.values())) == len(colour), f"{which}: two routes share a colour")
    for edge, c in arrows:
        users = legs[edge]
        if users <= colour.keys():
            ensure(c in {colour[u] for u in users}, f"{which}: a leg has the colour of another route")


def check(case, ctx):
    plt.close("all")
    seen = []
    original_save, original_show = matplotlib.figure.Figure.savefig, plt.show

    def save(self, *args, **kwargs):
        seen.append(("file", self))
        pictures.append(snapshot_judge(self))
        kwargs.setdefault("dpi", 40)
        return original_save(self, *args, **kwargs)

    def show(*args, **kwargs):
        figures = [plt.figure(n) for n in plt.get_fignums()]
        ensure(len(figures) == 1, f"{len(figures)} figures are shown")
        seen.append(("show", figures[0]))
        pictures.append(snapshot_judge(figures[0]))

    pictures = []
    current = {}

    def snapshot_judge(figure):
        judge(figure, current["result"], current["which"])
        return True

    matplotlib.figure.Figure.savefig, plt.show = save, show
    rc = dict(matplotlib.rcParams)
    served = 0
    try:
        with tempfile.TemporaryDirectory(prefix="verif-c18-") as folder:
            for number, one in enumerate(case["drawings"]):
                world = World(one["inst"], case["order"])
                if "cfg" in one:
                    result = algos.run(world, one["cfg"])
                else:
                    result = plans.make_result(world, plans.build_planning(world, one))
                current.update(result=result, which=f"drawing {number + 1}")
                served += sum(1 for r in result.routes for _ in r.trips)
                path = Path(folder) / f"{number}.{one['ext']}"
                before = len(pictures)
                if one["shown"]:
                    jit.GraphPlotStorer(result=result).store()
                else:
                    jit.GraphPlotStorer(file_path=path, result=result).store()
                    ensure(path.exists() and os.path.getsize(path) > 0, "the requested file is not written")
                ensure(len(pictures) == before + 1, "the graph is not drawn exactly once")
                ensure(seen[-1][0] == ("show" if one["shown"] else "file"), "drawn to the wrong place")
                ctx.label("shown" if one["shown"] else one["ext"])
                if not result.routes:
                    ctx.label("no routes")
    finally:
        matplotlib.figure.Figure.savefig, plt.show = original_save, original_show
        matplotlib.rcParams.update(rc)
        plt.close("all")
    ctx.label(f"{len(case['drawings'])} drawings")
    ctx.nontrivial(served > 0 or len(case["drawings"]) > 1)


@st.composite
def drawings(draw):
    span = draw(st.sampled_from([1, 3, 8]))
    if draw(gen.rare):
        one = {"inst": draw(gen.instance(trips=(0, 4), span=span)), "cfg": draw(algos.config(("insertion", "local")))}
    else:
        fleet = draw(st.sampled_from([(1, 3), (1, 3), (1, 3), (6, 14)]))
        one = draw(plans.plan_case(trips=(0, 5), vehicles=fleet, span=span, merge=True, wants=True))
        if draw(gen.rare):
            one["routes"] = []
    one.update(shown=draw(gen.rare), ext=draw(st.sampled_from(["png", "png", "svg", "pdf"])))
    return one


cases = st.fixed_dictionaries({"drawings": st.one_of(st.lists(drawings(), min_size=1, max_size=1), st.lists(drawings(), min_size=1, max_size=3)),
                               "order": gen.orders})
TARGETS = [Target("drawings", cases, check, 1000, 20000)]
