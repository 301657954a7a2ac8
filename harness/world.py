"""Builds real jinete objects out of plain instances, reads them back, and owns set-iteration order."""
import weakref

import ref
from boot import load_sut

jit = load_sut()

INF = float("inf")


# ---------------------------------------------------------------------------------------------
# Set-iteration order: jinete keeps trips, routes, vehicles, ... in sets of identity-hashed objects, so the
# order in which it walks them is arbitrary (it depends on memory addresses). The harness turns that order
# into a generated, replayable dimension: identity hashes are replaced by a pseudo-random function of
# (order seed, creation rank). Equality is untouched.
# ---------------------------------------------------------------------------------------------
_state = {"seed": 0, "count": 0}
_M = (1 << 61) - 1


def _mix(seed, n):
    x = (seed * 0x9E3779B97F4A7C15 + n * 0xBF58476D1CE4E5B9 + 0x94D049BB133111EB) & ((1 << 64) - 1)
    x ^= x >> 30
    x = (x * 0xBF58476D1CE4E5B9) & ((1 << 64) - 1)
    x ^= x >> 27
    x = (x * 0x94D049BB133111EB) & ((1 << 64) - 1)
    x ^= x >> 31
    return x % _M


_ranks = {}     # id -> (weak reference, hash); never stored on the object, so copies get their own


def _ordered_hash(self):
    key = id(self)
    entry = _ranks.get(key)
    if entry is not None and entry[0]() is self:
        return entry[1]
    try:
        ref = weakref.ref(self, lambda _, key=key: _ranks.pop(key, None))
    except TypeError:
        return object.__hash__(self)
    _state["count"] += 1
    value = _mix(_state["seed"], _state["count"])
    _ranks[key] = (ref, value)
    return value


for _cls in (jit.Trip, jit.Vehicle, jit.Route, jit.Stop, jit.PlannedTrip):
    if _cls.__hash__ is object.__hash__ and _cls.__eq__ is object.__eq__:
        _cls.__hash__ = _ordered_hash


def set_order(seed):
    _state["seed"], _state["count"] = int(seed), 0


# ---------------------------------------------------------------------------------------------
OBJECTIVES = {"dial": jit.DialARideObjective, "taxi": jit.TaxiSharingObjective, "hash": jit.HashCodeObjective}
METRICS = {"manhattan": jit.DistanceMetric.MANHATTAN, "euclidean": jit.DistanceMetric.EUCLIDEAN}


def _inf(v):
    return INF if v is None else v


class OwnSurface(jit.Surface):
    """A coordinate space as a user may write one: directed, with travel times of its own."""

    def __init__(self, metric, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.metric = metric

    def _build_position(self, *args, **kwargs):
        return jit.GeometricPosition(surface=self, *args, **kwargs)

    def distance(self, position_a, position_b):
        return ref.dist(self.metric, position_a.coordinates, position_b.coordinates)

    def time(self, position_a, position_b, now=None, **kwargs):
        return ref.drive(self.metric, position_a.coordinates, position_b.coordinates, now)


class World:
    """The jinete counterpart of one plain instance."""

    def __init__(self, inst, order=0, fresh_order=True):
        if fresh_order:
            set_order(order)
        self.inst = inst
        own = isinstance(inst["metric"], dict)
        self.surface = OwnSurface(inst["metric"]) if own else jit.GeometricSurface(METRICS[inst["metric"]])
        self.vehicle_data = {v["id"]: v for v in inst["vehicles"]}
        self.trip_data = {t["id"]: t for t in inst["trips"]}
        self.vehicles = {v["id"]: self._vehicle(v) for v in inst["vehicles"]}
        self.trips = {t["id"]: self._trip(t) for t in inst["trips"]}
        self.fleet = jit.Fleet(set(self.vehicles.values()))
        self.job = jit.Job(set(self.trips.values()), OBJECTIVES[inst["objective"]])

    def pos(self, xy):
        return self.surface.get_or_create_position(list(xy))

    def _vehicle(self, v):
        origin = jit.Service(self.pos(v["o"]), earliest=v["oe"], latest=_inf(v["ol"]))
        destination = None
        if v.get("d") is not None:
            destination = jit.Service(self.pos(v["d"]), earliest=v["de"], latest=_inf(v["dl"]))
        return jit.Vehicle(v["id"], origin, destination, capacity=v["cap"], timeout=_inf(v["timeout"]))

    def _trip(self, t):
        return jit.Trip(
            t["id"],
            origin=jit.Service(self.pos(t["o"]), earliest=t["oe"], latest=_inf(t["ol"]), duration=t["od"]),
            destination=jit.Service(self.pos(t["d"]), earliest=t["de"], latest=_inf(t["dl"]), duration=t["dd"]),
            capacity=t["cap"], on_time_bonus=t["bonus"], timeout=_inf(t["timeout"]),
        )


def snapshot(route):
    """Plain picture of a route: what it visits and when (as reported by the real objects)."""
    out = []
    for s in route.stops:
        out.append({
            "pos": tuple(s.position.coordinates),
            "pickups": sorted(p.trip.identifier for p in s.pickup_planned_trips),
            "deliveries": sorted(p.trip.identifier for p in s.delivery_planned_trips),
            "arrival": s.arrival_time,
            "start": s.starting_time,
            "departure": s.departure_time,
        })
    return out


def shape(route):
    """What the route visits, in order (no times)."""
    return tuple(
        (tuple(s.position.coordinates),
         tuple(sorted(p.trip.identifier for p in s.pickup_planned_trips)),
         tuple(sorted(p.trip.identifier for p in s.delivery_planned_trips)))
        for s in route.stops
    )
