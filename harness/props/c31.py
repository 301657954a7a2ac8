"""C31: solving depends on nothing but the instance - not on where its map and clock start, nor on units, nor on names."""
import json

from hypothesis import strategies as st

import algos
import gen
import plans
from core import Target, ensure
from props import c01
from world import World, snapshot

ID = "C31"
ORACLE = "metamorphic relation: the same instance moved, mirrored, turned, at a later time, in smaller units and under other names is solved to the same plan"
RULE = ("A case is an instance, a set-iteration order, an algorithm configuration, sometimes a starting plan, and a change of map, clock, units and names under which all numbers stay "
        "exact. Non-trivial: the plan serves at least two trips.")
ASSUMPTIONS = ["unordered inputs are walked in the same order in both solves (the harness fixes the identity hashes)",
               "data are whole numbers (the clock is shifted and units are changed on the Manhattan metric only), so that both solves compute with exact numbers and no limit is within the rounding tolerance in either"]


PLAIN = (("clock", 0), ("unit", 1), ("names", None), ("turn", False), ("mirror", [1, 1]), ("move", [0, 0]))


def place(change, xy):
    x, y = xy
    if change["turn"]:
        x, y = y, x
    x, y = change["mirror"][0] * x, change["mirror"][1] * y
    return [(x + change["move"][0]) * change["unit"], (y + change["move"][1]) * change["unit"]]


def moment(change, t):
    return None if t is None else (t + change["clock"]) * change["unit"]


def lasting(change, t):
    return None if t is None else t * change["unit"]


def other_name(change, ident):
    return ident if change["names"] is None else change["names"][int(ident) % len(change["names"])] + ident


def changed(case):
    change, case = case["change"], json.loads(json.dumps(case))
    inst = case["inst"]
    for x in inst["vehicles"] + inst["trips"]:
        x["id"] = other_name(change, x["id"])
        x["o"] = place(change, x["o"])
        x["d"] = None if x["d"] is None else place(change, x["d"])
        for key in ("oe", "ol", "de", "dl"):
            x[key] = moment(change, x[key])
        for key in ("timeout", "od", "dd", "bonus"):
            if key in x:
                x[key] = lasting(change, x[key])
    for r in case.get("routes", ()):
        r["vehicle"] = other_name(change, r["vehicle"])
        for key in r:
            if key.startswith("want"):
                r[key] = moment(change, r[key])
        for s in r["stops"]:
            s["P"], s["D"] = [other_name(change, t) for t in s["P"]], [other_name(change, t) for t in s["D"]]
            s["want"] = moment(change, s["want"])
    return case


def picture(result):
    return {r.vehicle.identifier: snapshot(r) for r in result.routes}


def expected(change, shown):
    out = {}
    for vehicle, stops in shown.items():
        out[other_name(change, vehicle)] = [
            {"pos": tuple(place(change, s["pos"])), "pickups": sorted(other_name(change, t) for t in s["pickups"]), "deliveries": sorted(other_name(change, t) for t in s["deliveries"]),
             **{key: moment(change, s[key]) for key in ("arrival", "start", "departure")}} for s in stops]
    return out


def solve(case):
    world = World(case["inst"], case["order"])
    initial = None
    if "routes" in case:
        initial = plans.make_result(world, plans.build_planning(world, case))
    return algos.run(world, case["cfg"], initial)


def value_of(change, objective, value):
    unit = change["unit"]
    return [value[0], value[1] * unit] if objective == "dial" else [value[0] * unit]


def check(case, ctx):
    change = case["change"]
    first = solve(case)
    second = solve(changed(case))
    want, got = expected(change, picture(first)), picture(second)
    ensure(set(want) == set(got), lambda: f"vehicles {sorted(got)}, elsewhere {sorted(want)}")
    for vehicle in want:
        ensure(want[vehicle] == got[vehicle], lambda: f"the changed instance is solved otherwise: {vehicle} drives {got[vehicle]}, not {want[vehicle]}")
    value = value_of(change, case["inst"]["objective"], first.optimization_value)
    ensure(list(second.optimization_value) == value, lambda: f"the changed instance has value {second.optimization_value}, not {value}")
    ctx.label(algos.name(case["cfg"]))
    for key, plain in PLAIN:
        if change[key] != plain:
            ctx.label(f"other {key}")
    ctx.nontrivial(sum(1 for r in first.routes for _ in r.trips) >= 2)


def whole(case):
    numbers = [x[key] for x in case["inst"]["vehicles"] + case["inst"]["trips"] for key in ("oe", "ol", "de", "dl", "timeout", "od", "dd", "bonus") if x.get(key) is not None]
    numbers += [r[key] for r in case.get("routes", ()) for key in r if key.startswith("want") and r[key] is not None]
    numbers += [s["want"] for r in case.get("routes", ()) for s in r["stops"] if s["want"] is not None]
    return all(float(n).is_integer() for n in numbers)


@st.composite
def changes(draw, exact):
    out = {"turn": draw(gen.half), "mirror": [draw(st.sampled_from([1, -1])), draw(st.sampled_from([1, -1]))],
           "move": [draw(st.integers(-20, 20)), draw(st.integers(-20, 20))], "clock": 0, "unit": 1,
           "names": draw(st.one_of(st.none(), st.sampled_from([["z", "a", "m"], ["-"], ["9", "10", "1"]])))}
    if draw(gen.half):          # about one thing at a time
        out.update(turn=False, mirror=[1, 1], move=[0, 0])
    if exact and draw(st.integers(0, 3)):
        out["clock"] = draw(st.sampled_from([0, 1, 7, 1000, 1430, 86380, 1700000000]))
        out["unit"] = draw(st.sampled_from([1, 1, 2, 60, 1000]))
    if all(out[key] == plain for key, plain in PLAIN):
        out["turn"] = True
    return out


@st.composite
def cases(draw, bases):
    case = draw(bases)
    exact = case["inst"]["metric"] == "manhattan" and whole(case)
    return {**case, "change": draw(changes(exact))}


TARGETS = [Target("algorithms", cases(c01.cases()), check, 1000, 60000), Target("from-plan", cases(c01.plan_cases()), check, 700, 40000)]
