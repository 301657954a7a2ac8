"""C02: plans are sound - each trip at most once, paired, one route per vehicle."""
from collections import Counter

import algos
import plans
import ref
from core import Target, ensure
from props import c01
from world import World, snapshot

ID = "C02"
ORACLE = "structural invariants recomputed from the returned stops"
RULE = ("Cases as in C01 (instance, set-iteration order, algorithm configuration, optionally a hand-made start plan). "
        "Non-trivial: the returned plan serves at least two trips and either uses several vehicles or interleaves rides.")
ASSUMPTIONS = ["trips and vehicles of an instance have distinct identifiers"]


def sound(world, result):
    vehicles = Counter()
    served = Counter()
    fleet = set(map(id, world.vehicles.values()))
    jobs = set(map(id, world.trips.values()))
    for route in result.routes:
        data = world.vehicle_data.get(route.vehicle.identifier)
        ensure(id(route.vehicle) in fleet and data is not None, "a route is driven by a vehicle that is not in the fleet")
        vehicles[data["id"]] += 1
        stops = route.stops
        ensure(stops[0].previous is None, f"route of vehicle {data['id']}: the first stop has a predecessor")
        for i in range(1, len(stops)):
            ensure(stops[i].previous is stops[i - 1],
                   f"route of vehicle {data['id']}: stop {i} does not point to the stop before it")
        plan = snapshot(route)
        ensure(plan[0]["pos"] == ref.depot_origin(data) and plan[-1]["pos"] == ref.depot_destination(data),
               f"route of vehicle {data['id']} does not run between the vehicle's depots")
        for kind, _, message in ref.route_problems(world.inst, data, plan):
            ensure(kind != "structure", f"route of vehicle {data['id']}: {message}")
        for i, stop in enumerate(stops):
            ensure(stop.vehicle is route.vehicle, f"route of vehicle {data['id']}: stop {i} belongs to another vehicle")
            for p in stop.pickup_planned_trips:
                ensure(id(p.trip) in jobs, "a served trip is not one of the job's")
                ensure(p.vehicle is route.vehicle, f"trip {p.trip.identifier} is planned with another vehicle")
                ensure(p.pickup is stop and any(p.delivery is s for s in stops[i + 1:]),
                       f"trip {p.trip.identifier}: its pickup and delivery are not the stops that list it")
                served[p.trip.identifier] += 1
            for p in stop.delivery_planned_trips:
                ensure(p.delivery is stop and p in p.pickup.pickup_planned_trips,
                       f"trip {p.trip.identifier}: its pickup and delivery are not the stops that list it")
        ensure(sorted(t.identifier for t in route.trips) == sorted(t for s in plan for t in s["pickups"]),
               "a route's trips are not the ones its stops pick up")
    for t, times in served.items():
        ensure(times == 1, f"trip {t} is served {times} times")
    for v, times in vehicles.items():
        ensure(times == 1, f"vehicle {v} drives {times} routes")
    return served


def _judge(case, result, world, ctx, label):
    served = sound(world, result)
    used = sum(1 for r in result.routes if r.loaded)
    ctx.label(label)
    ctx.label(f"vehicles used: {min(used, 3)}")
    ctx.nontrivial(len(served) >= 2 and (used > 1 or len(served) > 2))


def check(case, ctx):
    world = World(case["inst"], case["order"])
    _judge(case, algos.run(world, case["cfg"]), world, ctx, algos.name(case["cfg"]))


def check_from_plan(case, ctx):
    world = World(case["inst"], case["order"])
    for r in case["routes"]:
        vehicle, plan = plans.simulate(case["inst"], r)
        if ref.route_problems(case["inst"], vehicle, plan, tol=1e-9):
            ctx.label("skipped: infeasible start")
            return
    initial = plans.make_result(world, plans.build_planning(world, case))
    _judge(case, algos.run(world, case["cfg"], initial), world, ctx, "from plan: " + algos.name(case["cfg"]))


TARGETS = [
    Target("algorithms", c01.cases(), check, 1600, 60000),
    Target("from-plan", c01.plan_cases(), check_from_plan, 1600, 40000),
]
