"""C15: HashCode submissions list each vehicle's served trips in driving order."""
from collections import Counter

from hypothesis import strategies as st

import algos
import gen
import plans
from core import Target, ensure
from world import World, jit

ID = "C15"
ORACLE = "the text parsed back and compared with the plan's visits"
RULE = ("A case is a result (hand-made plan with interleaved rides, idle routes, zero loads, shared stops, many trips; or computed) and whether idle "
        "vehicles are to be listed. Non-trivial: some vehicle serves at least two trips.")
ASSUMPTIONS = ["trips picked up at the same stop may be listed in either order; whether a vehicle that only serves zero-load trips is listed by default is not judged"]


def expected(result):
    """Per route: list of groups of loaded trips (one group per pickup stop), and whether it serves anything."""
    out = []
    for route in result.routes:
        groups, any_trip = [], False
        for s in route.stops:
            names = sorted(p.trip.identifier for p in s.pickup_planned_trips if p.trip.capacity != 0)
            any_trip = any_trip or bool(s.pickup_planned_trips)
            if names:
                groups.append(names)
        out.append((groups, any_trip))
    return out


def parse(text):
    lines = []
    for line in text.split("\n") if text else []:
        words = line.split()
        ensure(words and words[0].isdigit(), lambda: f"line {line!r} does not start with a number of trips")
        ensure(int(words[0]) == len(words) - 1, lambda: f"line {line!r} announces {words[0]} trips and lists {len(words) - 1}")
        lines.append(words[1:])
    return lines


def canonical(names, group_of):
    """Sorts runs of names picked up at the same stop."""
    out, i = [], 0
    while i < len(names):
        j = i
        while j < len(names) and group_of.get(names[j]) is not None and group_of.get(names[j]) == group_of.get(names[i]):
            j += 1
        j = max(j, i + 1)
        out += sorted(names[i:j])
        i = j
    return tuple(out)


def judge(result, text, listed):
    routes = expected(result)
    group_of = {}
    for r, (groups, _) in enumerate(routes):
        for g, names in enumerate(groups):
            for n in names:
                group_of[n] = (r, g)
    got = Counter(canonical(line, group_of) for line in parse(text))
    must, may = Counter(), 0
    for groups, any_trip in routes:
        flat = tuple(n for names in groups for n in names)
        if flat or listed:
            must[flat] += 1
        elif any_trip:
            may += 1
    extra = got - must
    ensure(not must - got, lambda: f"missing from the text: {list((must - got).elements())[:3]}; it lists {list(got.elements())[:5]}")
    ensure(set(extra) <= {()} and extra[()] <= may, lambda: f"not in the plan: {list(extra.elements())[:3]}")


def check(case, ctx):
    case = plans.rename(case, case["names"])
    world = World(case["inst"], case["order"])
    result = algos.run(world, case["cfg"]) if "cfg" in case else plans.make_result(world, plans.build_planning(world, case))
    how = case["how"]
    if how == "default":
        formatter, listed = jit.HashCodeStorerFormatter(result=result), False
    elif how == "without":
        formatter, listed = jit.HashCodeStorerFormatter(result=result, remove_empty_routes=True), False
    else:
        formatter, listed = jit.HashCodeStorerFormatter(result=result, remove_empty_routes=False), True
    text = formatter.format()
    judge(result, text, listed)
    ensure(formatter.format() == text, "formatting again gives another text")
    ctx.label(how)
    ctx.label("idle routes", sum(1 for g, any_trip in expected(result) if not any_trip))
    ctx.nontrivial(any(sum(map(len, g)) >= 2 for g, _ in expected(result)))


@st.composite
def cases(draw):
    if draw(gen.rare):
        case = {"inst": draw(gen.instance(trips=(0, 5), objective="hash", metric="manhattan")), "cfg": draw(algos.config(("insertion", "iterative")))}
    else:
        case = draw(plans.plan_case(trips=draw(st.sampled_from([(0, 7), (3, 13)])), vehicles=(1, 4), gentle=False, merge=True, span=draw(st.sampled_from([1, 8])), wants=True))
    if draw(gen.half):
        for t in case["inst"]["trips"]:
            t["cap"] = draw(st.sampled_from([0, 1, 1, 2]))
    case.update(names=draw(plans.NAMES), order=draw(gen.orders), how=draw(st.sampled_from(["default", "without", "with"])))
    return case


TARGETS = [Target("submission", cases(), check, 2500, 100000)]
