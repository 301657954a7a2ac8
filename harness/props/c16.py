"""C16: the columnar report states the plan's facts."""
import ast
import re

from hypothesis import strategies as st

import algos
import gen
import plans
import ref
from core import Target, ensure
from world import World, jit, snapshot

ID = "C16"
ORACLE = "strict parse of the report against an independently simulated schedule"
RULE = ("A case is a result (hand-made plan, feasible or not, with idle routes, waiting, shared stops, zero and fractional loads, no routes, no trips; or "
        "computed), the indentation and whether empty routes are left out. Non-trivial: at least two trips are reported.")
ASSUMPTIONS = ["numbers are compared to the printed precision"]
NUMBER = r"\s*(-?(?:inf|nan|[0-9.]+(?:e[-+]?[0-9]+)?))"
POINT = r"\(([^()]*)\)"


class Lines:
    def __init__(self, text):
        self.lines = [line.strip() for line in text.split("\n") if line.strip()]
        self.i = 0

    def take(self, pattern):
        ensure(self.i < len(self.lines), f"the report ends before {pattern}")
        m = re.fullmatch(pattern, self.lines[self.i])
        ensure(m is not None, lambda: f"line {self.i + 1} of the report is {self.lines[self.i]!r}, expected {pattern}")
        self.i += 1
        return m.groups()

    def peek(self, pattern):
        return self.i < len(self.lines) and re.fullmatch(pattern, self.lines[self.i])


def number(text):
    return float(text)


def near(got, want, step):
    got = float(got)
    return got == want or abs(got - want) <= step * 0.5 + 1e-6 * max(1, abs(want) if want < 1e300 else 1)


def point(text, want, what):
    got = [float(x) for x in text.split(",")]
    ensure(len(got) == len(want) and all(near(a, b, 0.001) for a, b in zip(got, want)), lambda: f"{what}: position {got}, it is {want}")


TRIP = (r"ID: (\S+)\s+P: " + POINT + " to " + POINT + r"\s+TW:" + NUMBER + " to" + NUMBER + r"\s+WT:" + NUMBER + r"\s+NT:" + NUMBER
        + r"\s+LT:" + NUMBER + r"\s+TT:" + NUMBER + r"\s+T:" + NUMBER + " to" + NUMBER + r"\s+L:" + NUMBER)
STOP = (r"ID: \[(\S*)\]\s+P: " + POINT + r"\s+TW:" + NUMBER + " to" + NUMBER + r"\s+WT:" + NUMBER + r"\s+NT:" + NUMBER + r"\s+LT:" + NUMBER
        + r"\s+DT:" + NUMBER + r"\s+L:" + NUMBER)


def windows(inst, s):
    trips = ref.trips_by_id(inst)
    earliest, latest, service = 0.0, ref.INF, 0.0
    for t in s["pickups"]:
        oe, ol, _, _ = ref.tightened(inst, trips[t])
        earliest, latest, service = max(earliest, oe), min(latest, ol), max(service, trips[t]["od"])
    for t in s["deliveries"]:
        _, _, de, dl = ref.tightened(inst, trips[t])
        earliest, latest, service = max(earliest, de), min(latest, dl), max(service, trips[t]["dd"])
    return earliest, latest, service


def judge(text, result, inst, schedules, seconds, world):
    """schedules: vehicle id -> stops with arrival, start, departure, load, distance, waiting."""
    trips = ref.trips_by_id(inst)
    vehicles = {v["id"]: v for v in inst["vehicles"]}
    lines = Lines(text)
    (uuid,) = lines.take(r'Planning UUID: "([^"]*)"')
    ensure(uuid == str(result.planning.uuid), "the report names another plan")
    (count,) = lines.take(r'Routes count: "(\d+)"')
    ensure(int(count) == len(schedules), lambda: f"{count} routes announced, {len(schedules)} to be listed")
    lines.take("Routes:")
    seen = set()
    while lines.peek("Vehicle:"):
        lines.take("Vehicle:")
        (vid,) = lines.take('ID: "(.*)"')
        ensure(vid in schedules and vid not in seen, lambda: f"a route of vehicle {vid} is reported (to be listed: {sorted(schedules)}, listed: {sorted(seen)})")
        seen.add(vid)
        v, stops = vehicles[vid], schedules[vid]
        what = f"vehicle {vid}"
        point(lines.take("Initial: +" + POINT)[0], ref.depot_origin(v), what + " initial")
        point(lines.take("Final: +" + POINT)[0], ref.depot_destination(v), what + " final")
        ensure(near(lines.take("Earliest:" + NUMBER)[0], v["oe"], 0.01), what + ": earliest")
        ensure(near(lines.take("Latest:" + NUMBER)[0], ref.inf(v["ol"]), 0.01), what + ": latest")
        ensure(near(lines.take("Capacity:" + NUMBER)[0], v["cap"], 0.01), what + ": capacity")
        pick = {t: i for i, s in enumerate(stops) for t in s["pickups"]}
        drop = {t: i for i, s in enumerate(stops) for t in s["deliveries"]}
        (count,) = lines.take(r'Planned Trips: "(\d+)"')
        ensure(int(count) == len(pick), lambda: f"{what}: {count} planned trips announced, the route serves {len(pick)}")
        order = []
        for _ in range(int(count)):
            (t, o, d, oe, dl, wait, drive, service, ride, up, down, load) = lines.take(TRIP)
            ensure(t in pick and t not in order, lambda: f"{what}: trip {t} is reported")
            order.append(t)
            trip = trips[t]
            name = f"trip {t}"
            point(o, trip["o"], name)
            point(d, trip["d"], name)
            eo, _, _, ld = ref.tightened(inst, trip)
            between = stops[pick[t] + 1:drop[t] + 1]
            for label, got, want in (
                    ("window start", oe, eo), ("window end", dl, ld), ("waiting time", wait, sum(s["waiting"] for s in between)),
                    ("driving time", drive, sum(s["distance"] for s in between)),
                    ("service time", service, windows(inst, stops[pick[t]])[2] + windows(inst, stops[drop[t]])[2]),
                    ("ride time", ride, stops[drop[t]]["start"] - stops[pick[t]]["departure"]),
                    ("pickup time", up, stops[pick[t]]["departure"]), ("delivery time", down, stops[drop[t]]["start"])):
                ensure(near(got, want, 0.1), lambda: f"{name}: {label} {got}, it is {want}")
            ensure(near(load, trip["cap"], 0), lambda: f"{name}: load {load}")
        ensure([pick[t] for t in order] == sorted(pick.values()), f"{what}: planned trips are not in pickup order")
        (count,) = lines.take(r'Stops: "(\d+)"')
        ensure(int(count) == len(stops), lambda: f"{what}: {count} stops announced, the route has {len(stops)}")
        for i, s in enumerate(stops):
            (ident, p, early, late, wait, drive, service, depart, load) = lines.take(STOP)
            name = f"{what} stop {i}"
            want = sorted([f"P{t}" for t in s["pickups"]] + [f"D{t}" for t in s["deliveries"]])
            ensure(sorted(x for x in ident.split("|") if x) == want, lambda: f"{name}: reported as [{ident}], it serves {want}")
            point(p, s["pos"], name)
            earliest, latest, load_time = windows(inst, s)
            for label, got, value in (("window start", early, earliest), ("window end", late, latest), ("waiting time", wait, s["waiting"]),
                                      ("driving time", drive, s["distance"]), ("service time", service, load_time),
                                      ("departure", depart, s["departure"])):
                ensure(near(got, value, 0.1), lambda: f"{name}: {label} {got}, it is {value}")
            ensure(near(load, s["load"], 0), lambda: f"{name}: load {load}, it is {s['load']}")
    ensure(seen == set(schedules), lambda: f"routes of {sorted(set(schedules) - seen)} are missing from the report")
    ensure(near(lines.take('Computation time: "' + NUMBER + '" seconds')[0], seconds, 0.0001), "computation time")
    n = len(inst["trips"])
    loaded = {t.identifier for r in result.routes for t in r.trips if t.capacity != 0}
    ensure(near(lines.take('Coverage Rate: "' + NUMBER + '"')[0], len(loaded) / n if n else 1.0, 0), "coverage")
    ensure(lines.take('Objective: "(.*)"')[0] == {"dial": "DialARideObjective", "taxi": "TaxiSharingObjective", "hash": "HashCodeObjective"}[inst["objective"]], "objective")
    value = ast.literal_eval(lines.take('Optimization Value: "(.*)"')[0])
    ensure(ref.close(tuple(value), tuple(result.optimization_value)), lambda: f"value {value}, the result has {result.optimization_value}")
    ensure(lines.take('Feasible: "(True|False)"')[0] == str(bool(result.feasible)), "feasibility")
    ensure(lines.take('Direction: "(.*)"')[0] == "Maximization", "direction")
    ensure(lines.i == len(lines.lines), lambda: f"the report goes on with {lines.lines[lines.i]!r}")


def check(case, ctx):
    case = plans.rename(case, case["names"])
    inst = case["inst"]
    world = World(inst, case["order"])
    schedules = {}
    if "cfg" in case:
        result = algos.run(world, case["cfg"])
        for r in result.routes:
            stops, load, prev = snapshot(r), 0, tuple(r.vehicle.origin_position.coordinates)
            for s in stops:
                load += sum(world.trip_data[t]["cap"] for t in s["pickups"]) - sum(world.trip_data[t]["cap"] for t in s["deliveries"])
                s.update(load=load, waiting=s["start"] - s["arrival"], distance=ref.dist(inst["metric"], prev, s["pos"]))
                prev = s["pos"]
            schedules[r.vehicle.identifier] = stops
    else:
        result = plans.make_result(world, plans.build_planning(world, case))
        for r in case["routes"]:
            schedules[r["vehicle"]] = plans.simulate(inst, r)[1]
    kwargs = {}
    if case["empty"] is not None:
        kwargs["remove_empty_routes"] = case["empty"]
    if case["tab"] is not None:
        kwargs["tab_character"] = case["tab"]
    if case["empty"]:
        schedules = {v: s for v, s in schedules.items() if any(x["pickups"] for x in s)}
    text = jit.ColumnarStorerFormatter(result=result, **kwargs).format()
    judge(text, result, inst, schedules, result.computation_time, world)
    served = sum(len(s["pickups"]) for stops in schedules.values() for s in stops)
    ctx.label("computed" if "cfg" in case else "hand-made")
    ctx.label("feasible" if result.feasible else "infeasible")
    if not schedules:
        ctx.label("no routes")
    ctx.nontrivial(served >= 2)


@st.composite
def cases(draw):
    if draw(gen.rare):
        case = {"inst": draw(gen.instance(trips=(0, 5))), "cfg": draw(algos.config(("insertion", "local", "sequential")))}
    else:
        case = draw(plans.plan_case(trips=draw(st.sampled_from([(0, 7), (2, 12)])), vehicles=(1, 4), gentle=draw(gen.half), merge=True, span=draw(st.sampled_from([1, 8, 40])), wants=True))
        for r in case["routes"]:
            for s in r["stops"]:
                if draw(gen.rare):
                    s["want"] = draw(st.integers(0, 80))
    if draw(gen.rare):
        for t in case["inst"]["trips"]:
            t["cap"] = draw(st.sampled_from([0, 1, 2]))
    case.update(names=draw(plans.NAMES), order=draw(gen.orders), empty=draw(st.sampled_from([None, None, True, False])), tab=draw(st.sampled_from([None, None, "\t", "    ", " "])))
    return case


TARGETS = [Target("report", cases(), check, 2000, 80000)]
