"""C23: solving leaves the instance and every given plan untouched."""
from hypothesis import strategies as st

import algos
import gen
import plans
import ref
from core import Target, ensure
from props import c01, c05
from world import World, jit

ID = "C23"
ORACLE = "deep pictures of the instance and of the given plan before and after, compared with each other and with the plain description"
RULE = ("A case is an instance, a set-iteration order, an algorithm configuration and optionally a hand-made start plan (feasible or not "
        "reported on before the run); chains keep every intermediate result and check all of them at the end. "
        "Non-trivial: the given plan serves at least one trip, or the run builds on an earlier result.")
ASSUMPTIONS = ["strategies told not to copy (with_copy=False) are out of scope: they edit in place by contract"]


def instance_picture(world):
    def service(s):
        return (s.position is not None and tuple(s.position.coordinates), s.earliest, s.latest, s.duration)

    vehicles = {v.identifier: (service(v.origin), service(v.destination), v.capacity, v.timeout, v.origin_earliest,
                               v.origin_latest, v.destination_earliest, v.destination_latest) for v in world.fleet.vehicles}
    trips = {t.identifier: (service(t.origin), service(t.destination), t.capacity, t.timeout, t.on_time_bonus, t.origin_earliest,
                            t.origin_latest, t.destination_earliest, t.destination_latest, t.distance) for t in world.job.trips}
    return vehicles, trips


def identities(world):
    return (id(world.fleet.vehicles), sorted(map(id, world.fleet.vehicles)), id(world.job.trips), sorted(map(id, world.job.trips)),
            id(world.job.objective), world.job.objective.name, world.job.objective.direction)


def given_picture(result):
    return sorted(((r.vehicle.identifier, c05.picture(r)) for r in result.routes), key=lambda x: (str(x[0]), repr(x[1])))


def given_identities(result):
    return (id(result.planning), id(result.planning.routes), sorted((id(r), id(r.vehicle), tuple(map(id, r.stops))) for r in result.routes),
            result.computation_time, id(result.algorithm))


def flushed(result):
    """The same facts, recomputed from the stops instead of from what was remembered."""
    for r in result.routes:
        for s in r.stops:
            s.flush()
        r.flush()
    return given_picture(result)


class Kept:
    def __init__(self, result, name):
        self.result, self.name = result, name
        self.identities = given_identities(result)
        self.picture = given_picture(result)
        self.value, self.feasible = result.optimization_value, bool(result.feasible)

    def verify(self):
        got = given_identities(self.result)
        ensure(got == self.identities, f"{self.name}: the plan consists of other routes or stops than before")
        now = given_picture(self.result)
        ensure(ref.same(now, self.picture), lambda: f"{self.name} reports {now}, before the run {self.picture}")
        ensure(ref.close(self.result.optimization_value, self.value), lambda: f"{self.name} is worth {self.result.optimization_value}, before {self.value}")
        ensure(bool(self.result.feasible) == self.feasible, f"{self.name} changes its verdict")
        for r in self.result.routes:
            c05.references(r, self.name)
        later = flushed(self.result)
        ensure(ref.same(later, self.picture), lambda: f"{self.name}, refreshed, reports {later}, before the run {self.picture}")
        ensure(ref.close(self.result.optimization_value, self.value), f"{self.name}, refreshed, has another value")


def check(case, ctx):
    world = World(case["inst"], case["order"])
    before, same = instance_picture(world), identities(world)
    kept = []
    if case["cfg"]["kind"] == "steps":
        cfg = case["cfg"]
        current = jit.InsertionAlgorithm(fleet=world.fleet, job=world.job, **algos.insertion_kwargs(cfg["first"])).optimize()
        for i, one in enumerate(cfg["steps"]):
            kept.append(Kept(current, f"result {i + 1} of the chain"))
            current = algos.run_step(world, current, one)
            for k in kept:
                k.verify()
    else:
        if case["cfg"]["kind"] in ("local", "sequential"):
            first = jit.InsertionAlgorithm(fleet=world.fleet, job=world.job, **algos.insertion_kwargs(case["cfg"]["first"])).optimize()
            kept.append(Kept(first, "the given result"))
            algos.run(world, case["cfg"], first)
        else:
            algos.run(world, case["cfg"])
    for k in kept:
        k.verify()
    ensure(identities(world) == same, "the sets of trips or vehicles change")
    ensure(ref.same(instance_picture(world), before), lambda: f"the instance is {instance_picture(world)}, before {before}")
    ctx.label(algos.name(case["cfg"]))
    ctx.nontrivial(any(True for k in kept for r in k.result.routes for _ in r.trips))


def check_given(case, ctx):
    """A hand-made start plan; with cold, nothing was read from it before the run."""
    world = World(case["inst"], case["order"])
    before, same = instance_picture(world), identities(world)
    initial = plans.make_result(world, plans.build_planning(world, case))
    ids = given_identities(initial)
    ends = []
    feasible = True
    for r in case["routes"]:
        vehicle, plan = plans.simulate(case["inst"], r)
        ends.append((r["vehicle"], plan))
        feasible &= not ref.route_problems(case["inst"], vehicle, plan, tol=1e-9)
    if not feasible:
        # local searches assume a feasible start; insertion and the compositions built on it only extend it
        if case["cfg"]["kind"] != "insertion":
            ctx.label("skipped: infeasible start")
            return
    kept = None if case["cold"] else Kept(initial, "the given plan")
    algos.run(world, case["cfg"], initial)
    if kept is not None:
        kept.verify()
    ensure(given_identities(initial) == ids, "the given plan consists of other routes or stops than before")
    got = {r.vehicle.identifier: r for r in initial.routes}
    for vid, plan in ends:
        route = got[vid]
        ensure(len(route.stops) == len(plan), "stop count of the given plan")
        for i, (s, want) in enumerate(zip(route.stops, plan)):
            ensure(tuple(s.position.coordinates) == tuple(want["pos"])
                   and sorted(p.trip.identifier for p in s.pickup_planned_trips) == sorted(want["pickups"])
                   and sorted(p.trip.identifier for p in s.delivery_planned_trips) == sorted(want["deliveries"]),
                   f"the given plan visits something else at stop {i}")
            ensure(ref.close((s.arrival_time, s.starting_time, s.departure_time), (want["arrival"], want["start"], want["departure"])),
                   lambda: f"the given plan is at stop {i} at {(s.arrival_time, s.starting_time, s.departure_time)}, before {want}")
    pairs = [(next(v for v in case["inst"]["vehicles"] if v["id"] == vid), plan) for vid, plan in ends]
    want = ref.planning_value(case["inst"], pairs)
    ensure(ref.close(tuple(initial.optimization_value), want), lambda: f"the given plan is worth {initial.optimization_value}, before {want}")
    ensure(identities(world) == same, "the sets of trips or vehicles change")
    ensure(ref.same(instance_picture(world), before), lambda: f"the instance is {instance_picture(world)}, before {before}")
    ctx.label("given: " + algos.name(case["cfg"]) + (", cold" if case["cold"] else ""))
    ctx.nontrivial(any(r["stops"] for r in case["routes"]))


@st.composite
def given_cases(draw):
    case = draw(c01.plan_cases())
    case["cold"] = draw(gen.half)
    return case


TARGETS = [
    Target("algorithms", c01.cases(), check, 900, 40000),
    Target("given-plan", given_cases(), check_given, 1500, 60000),
]
