From 546e74e2dac09c8c6a26f7643bcd5a449b022ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:04 +0000
Subject: [PATCH 01/33] fix: use the pickup's own service time when narrowing a
 trip's pickup window

---
 jinete/models/trips.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinete/models/trips.py b/jinete/models/trips.py
index 05ae73c..df307a5 100644
--- a/jinete/models/trips.py
+++ b/jinete/models/trips.py
@@ -117,12 +117,12 @@ class Trip(Model):
 
     @property
     def origin_earliest(self) -> float:
-        return max(self.destination.earliest - self.destination.duration - self.timeout, self.origin.earliest,)
+        return max(self.destination.earliest - self.origin.duration - self.timeout, self.origin.earliest,)
 
     @property
     def origin_latest(self) -> float:
         return min(
-            self.destination.latest - self.destination.duration - self.origin.time_to(self.destination),
+            self.destination.latest - self.origin.duration - self.origin.time_to(self.destination),
             self.origin.latest,
         )
 
-- 
2.43.0


From 938097bff8b77dc077aef8e7e8e5e1a5fb03f615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:56 +0000
Subject: [PATCH 02/33] fix: a plan without routes is feasible instead of
 raising TypeError

---
 jinete/models/plannings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/plannings.py b/jinete/models/plannings.py
index d489f89..df171ff 100644
--- a/jinete/models/plannings.py
+++ b/jinete/models/plannings.py
@@ -74,7 +74,7 @@ class Planning(Model):
 
     @property
     def feasible(self) -> bool:
-        return reduce(and_, (route.feasible for route in self.routes))
+        return reduce(and_, (route.feasible for route in self.routes), True)
 
     def __iter__(self) -> Generator[Tuple[str, Any], None, None]:
         yield from (("uuid", self.uuid), ("route_identifiers", tuple(route.identifier for route in self.routes)))
-- 
2.43.0


From bef4561e713e8fea83e2491e071be4859298d7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:05 +0000
Subject: [PATCH 03/33] fix: discard a route's cached feasibility when its
 stops change

---
 jinete/models/routes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index 3f3dba2..1c019d2 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -251,6 +251,7 @@ class Route(Model):
 
         self.stops.insert(idx, stop)
 
+        self.__dict__.pop("feasible", None)
         for stop in self.stops[idx:]:
             stop.flush()
 
@@ -265,6 +266,7 @@ class Route(Model):
 
         removed_stop = self.stops.pop(idx)
 
+        self.__dict__.pop("feasible", None)
         for stop in self.stops[idx:]:
             stop.flush()
         return removed_stop
-- 
2.43.0


From 9730e269065e3de3e8a6e7296003024c74b37095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:55 +0000
Subject: [PATCH 04/33] fix: discard a stop's cached feasibility when it is
 refreshed

---
 jinete/models/stops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jinete/models/stops.py b/jinete/models/stops.py
index bb3833f..26da533 100644
--- a/jinete/models/stops.py
+++ b/jinete/models/stops.py
@@ -227,6 +227,7 @@ class Stop(Model):
             "arrival_time",
             "departure_time",
             "capacity",
+            "feasible",
         ):
             self.__dict__.pop(key, None)
         for planned_trip in self.planned_trips:
-- 
2.43.0


From 931ac8f1468965adff64816ef3de72cfaf46dd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:01 +0000
Subject: [PATCH 05/33] fix: delay the departure of the candidate only, and
 relative to the vehicle's start

---
 jinete/algorithms/heuristics/insertion/strategies/abc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jinete/algorithms/heuristics/insertion/strategies/abc.py b/jinete/algorithms/heuristics/insertion/strategies/abc.py
index 1d5b068..f51d163 100644
--- a/jinete/algorithms/heuristics/insertion/strategies/abc.py
+++ b/jinete/algorithms/heuristics/insertion/strategies/abc.py
@@ -55,7 +55,8 @@ class InsertionStrategy(object):
         return routes
 
     def _compute_one(self, route: Route, trip: Trip, previous_idx: int, following_idx: int, *args, **kwargs) -> Route:
-        cloner = RouteCloner(route, previous_idx + 1)
+        # Waiting at the first visited stop delays the departure, which requires to own the whole route.
+        cloner = RouteCloner(route, previous_idx + 1 if route.stops[1].waiting_time == 0 else 0)
         route = cloner.clone()
 
         pickup = self._build_pickup(route, trip, previous_idx)
@@ -69,7 +70,7 @@ class InsertionStrategy(object):
 
     def _improve_ride_times(self, route: Route, idx: int) -> None:
         if route.stops[1].waiting_time != 0:
-            route.stops[0].starting_time = route.stops[1].waiting_time
+            route.stops[0].starting_time += route.stops[1].waiting_time
             route.stops[0].flush(), route.stops[1].flush()
 
         if route.feasible:
-- 
2.43.0


From 70311bfedb053d71451876a0cc298bb0ed8bcfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:43 +0000
Subject: [PATCH 06/33] fix: rank the candidate routes of the best stateless
 iterator as one iterable

---
 jinete/algorithms/heuristics/insertion/iterators/stateless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/stateless.py b/jinete/algorithms/heuristics/insertion/iterators/stateless.py
index e0a5c4e..385ff35 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/stateless.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/stateless.py
@@ -55,7 +55,7 @@ class BestStatelessInsertionIterator(StatelessInsertionIterator):
         self.random = Random(seed)
 
     def __next__(self) -> Route:
-        candidates = self._criterion.nbest(self.randomized_size, *self.iterator)
+        candidates = self._criterion.nbest(self.randomized_size, self.iterator)
 
         if not any(candidates):
             raise StopIteration
-- 
2.43.0


From 5b016de1a8ba4fb3c633929441253437b8307cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:50 +0000
Subject: [PATCH 07/33] fix: build insertions from the current routes, and keep
 opening vehicles after a loaded start

---
 .../heuristics/insertion/iterators/abc.py          | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/abc.py b/jinete/algorithms/heuristics/insertion/iterators/abc.py
index bbad14f..1b429eb 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/abc.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/abc.py
@@ -77,7 +77,6 @@ class InsertionIterator(ABC):
         self.fleet = fleet
         self.job = job
         self.routes_container = {route.vehicle: route for route in routes}
-        self.__attractive_routes = None
         self.pending_trips = pending_trips
 
         self.strategy_cls = strategy_cls
@@ -92,14 +91,11 @@ class InsertionIterator(ABC):
 
     @property
     def _attractive_routes(self) -> Set[Route]:
-        if self.__attractive_routes is None:
-            self.__attractive_routes = set(route for route in self._routes if any(route.planned_trips))
-
-        if not any(any(route.planned_trips) for route in self.__attractive_routes):
-            empty_route = next((route for route in self._routes if not any(route.planned_trips)), None)
-            if empty_route is not None:
-                self.__attractive_routes.add(empty_route)
-        return self.__attractive_routes
+        routes = set(route for route in self._routes if any(route.planned_trips))
+        empty_route = next((route for route in self.routes_container.values() if not any(route.planned_trips)), None)
+        if empty_route is not None:
+            routes.add(empty_route)
+        return routes
 
     def _set_route(self, route: Route) -> None:
         vehicle = route.vehicle
-- 
2.43.0


From 88e2d1b3ad0a409342afc3bf58f60f9e096e50f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:59 +0000
Subject: [PATCH 08/33] fix: swap only visits in the one-shift search, and
 refresh both of them

---
 .../heuristics/local_search/strategies/routes/one_shift.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py b/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
index 67ed11e..4feab57 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
@@ -17,12 +17,12 @@ class OneShiftLocalSearchStrategy(LocalSearchStrategy):
         for route in self._routes:
             cost = self._objective.optimization_function(route)
 
-            for i in range(1, len(route.stops) - 1):
+            for i in range(1, len(route.stops) - 2):
                 j = i + 1
                 k = i + 2
                 first = route.stops[i]
                 second = route.stops[j]
-                third = route.stops[k] if k < len(route.stops) else None
+                third = route.stops[k]
 
                 if not set(first.pickup_planned_trips).isdisjoint(second.delivery_planned_trips):
                     continue
@@ -48,5 +48,4 @@ class OneShiftLocalSearchStrategy(LocalSearchStrategy):
         other.previous = previous.previous
         previous.previous = other
 
-        for stop in route.stops[self_index:]:
-            stop.flush()
+        route.flush()
-- 
2.43.0


From 03258ca8c066440fcf25322482b41fbfcd83ed71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:02 +0000
Subject: [PATCH 09/33] fix: keep only the best improved route per vehicle in
 the 2-opt search

---
 .../heuristics/local_search/strategies/routes/two_opt.py    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
index 8a73514..b8825c4 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
@@ -19,6 +19,7 @@ class TwoOPTLocalSearchStrategy(LocalSearchStrategy):
         for route in self._routes:
             logger.info(f'Improving route performed with vehicle identified by "{route.vehicle_identifier}"...')
             cost = self._objective.optimization_function(route)
+            best = None
 
             for i, k in combinations(range(1, len(route.stops) - 1), 2):
                 j = k + 1
@@ -53,7 +54,10 @@ class TwoOPTLocalSearchStrategy(LocalSearchStrategy):
                     continue
 
                 logger.info(f'Improved planning with "{self.__class__.__name__}": "{new_cost}" > "{cost}"')
-                overwritten_routes.add(new_route)
+                best = new_route
                 cost = new_cost
 
+            if best is not None:
+                overwritten_routes.add(best)
+
         self._update_routes(overwritten_routes)
-- 
2.43.0


From 2ba6ecbff7fb67ea5f821f2cb14e701b4d74238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:10 +0000
Subject: [PATCH 10/33] fix: sample reallocation positions with an own seeded
 generator instead of the global one

---
 .../local_search/strategies/plannings/reallocation.py    | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py b/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
index feb0598..2ea6c58 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
@@ -1,5 +1,8 @@
 import itertools as it
 import logging
+from random import (
+    Random,
+)
 
 from jinete.utils import (
     sample_index_pairs,
@@ -13,6 +16,10 @@ logger = logging.getLogger(__name__)
 
 
 class ReallocationLocalSearchStrategy(LocalSearchStrategy):
+    def __init__(self, *args, seed: int = 56, **kwargs):
+        super().__init__(*args, **kwargs)
+        self.random = Random(seed)
+
     def _improve(self) -> None:
         from ....insertion import InsertionStrategy  # FIXME Should this import come from "insertion" module?
 
@@ -37,7 +44,7 @@ class ReallocationLocalSearchStrategy(LocalSearchStrategy):
 
                 partial_cost_origin = partial_cost + self._objective.optimization_function(new_origin)[-1]
 
-                for i, j in sample_index_pairs(len(destination.stops), 128):
+                for i, j in sample_index_pairs(len(destination.stops), 128, self.random):
                     destinations = strategy.compute(destination, trip, i, j)
                     if not any(destinations):
                         continue
-- 
2.43.0


From b650e534173932b568a3135d9d33b202d6114e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:10 +0000
Subject: [PATCH 11/33] fix: tolerate rounding when checking that a stop's load
 is not negative

---
 jinete/models/stops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/stops.py b/jinete/models/stops.py
index 26da533..6f537ae 100644
--- a/jinete/models/stops.py
+++ b/jinete/models/stops.py
@@ -100,7 +100,7 @@ class Stop(Model):
         result = self.previous_capacity
         result += sum(trip.capacity for trip in self.pickup_planned_trips)
         result -= sum(trip.capacity for trip in self.delivery_planned_trips)
-        assert 0 <= result
+        assert 0 - ERROR_BOUND <= result
         return result
 
     @property
-- 
2.43.0


From 8b321526e592b4e1dd269596103a3a4aef1917a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:10 +0000
Subject: [PATCH 12/33] fix: report a job without trips as fully covered
 instead of dividing by zero

---
 jinete/models/results.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/models/results.py b/jinete/models/results.py
index 79fdd8d..70ea2e8 100644
--- a/jinete/models/results.py
+++ b/jinete/models/results.py
@@ -78,6 +78,8 @@ class Result(Model):
 
     @property
     def coverage_rate(self):
+        if not self.job.trips:
+            return 1.0
         return len(self.completed_trips) / len(self.job.trips)
 
     @property
-- 
2.43.0


From 6081293814eb516e1f55242807651511a305a9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:23 +0000
Subject: [PATCH 13/33] fix: draw every graph on a figure of its own

---
 jinete/storers/plots/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/storers/plots/graph.py b/jinete/storers/plots/graph.py
index 4d0623b..f74aebd 100644
--- a/jinete/storers/plots/graph.py
+++ b/jinete/storers/plots/graph.py
@@ -96,6 +96,7 @@ class GraphPlotStorer(Storer):
         edge_color = [metadata["color"] for metadata in graph.edges.values()]
         edge_labels = {edge: metadata["label"] for edge, metadata in graph.edges.items()}
 
+        figure = plt.figure()
         nx.draw(graph, pos=pos, edge_color=edge_color, node_size=100)
         nx.draw_networkx_labels(graph, pos, labels=node_labels, font_size=5, font_color="white")
         nx.draw_networkx_edge_labels(graph, pos, edge_labels=edge_labels)
@@ -104,6 +105,7 @@ class GraphPlotStorer(Storer):
             plt.savefig(str(self.file_path))
         else:
             plt.show()
+        plt.close(figure)
 
     def store(self) -> None:
         """Perform a storage process."""
-- 
2.43.0


From 86102d6c862f110d89a54f93f7e06abad34bb5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:17 +0000
Subject: [PATCH 14/33] fix: never return less than the start when iterating
 from the best so far

---
 jinete/algorithms/metaheuristics/iterative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/algorithms/metaheuristics/iterative.py b/jinete/algorithms/metaheuristics/iterative.py
index 9e787e2..e0f2d50 100644
--- a/jinete/algorithms/metaheuristics/iterative.py
+++ b/jinete/algorithms/metaheuristics/iterative.py
@@ -75,7 +75,7 @@ class IterativeAlgorithm(Algorithm):
         return self.algorithm_cls(*args, **new_kwargs)
 
     def _optimize(self) -> Planning:
-        best: Optional[Result] = None
+        best: Optional[Result] = None if self.restart_mode else self.kwargs.get("initial")
         for i in range(self.episodes):
             seed = self.random.randint(0, MAX_INT)
             kwargs = {"seed": seed}
-- 
2.43.0


From 4be697bd792012d028efaccab2e8ba273c00e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:55 +0000
Subject: [PATCH 15/33] fix: order the visits of every exact route instead of
 pricing out equal positions

---
 .../algorithms/exacts/models/three_index.py   | 35 +++++++++++++++----
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index a558f83..aab1031 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -46,8 +46,6 @@ if TYPE_CHECKING:
 
 logger = logging.getLogger(__name__)
 
-BIG = 10000
-
 
 class ThreeIndexLinearModel(LinearModel):
     """Three index model class implementation.
@@ -85,6 +83,7 @@ class ThreeIndexLinearModel(LinearModel):
             [
                 self._uniqueness_constraints,
                 self._connectivity_constraints,
+                self._order_constraints,
                 self._time_constraints,
                 self._feasibility_constraints,
             ],
@@ -130,6 +129,14 @@ class ThreeIndexLinearModel(LinearModel):
             w.append(w_k)
         return w
 
+    @cached_property
+    def _p(self) -> List[List[lp.LpVariable]]:
+        last = len(self._positions) - 1
+        return [
+            [lp.LpVariable(f"p_{k}_{i}", lowBound=0, upBound=last) for i in self._positions_indexer]
+            for k in self._routes_indexer
+        ]
+
     @cached_property
     def _vehicles(self) -> Tuple[Vehicle, ...]:
         return tuple(self.fleet.vehicles)
@@ -154,11 +161,7 @@ class ThreeIndexLinearModel(LinearModel):
         for origin in self._positions:
             origin_costs = list()
             for destination in self._positions:
-                if origin == destination:
-                    cost = BIG
-                else:
-                    cost = origin.distance_to(destination)
-                origin_costs.append(cost)
+                origin_costs.append(origin.distance_to(destination))
             costs.append(origin_costs)
         return costs
 
@@ -261,6 +264,24 @@ class ThreeIndexLinearModel(LinearModel):
 
         return constraints
 
+    @cached_property
+    def _order_constraints(self) -> List[lp.LpConstraint]:
+        # Rules out cycles and deliveries before pickups, also when no time elapses between the involved positions.
+        constraints = list()
+
+        cons = len(self._positions)
+        for k in self._routes_indexer:
+            for i, j in product(self._positions_indexer, self._positions_indexer):
+                if i == j:
+                    constraints.append(self._x[k][i][j] == 0)
+                else:
+                    constraints.append(self._p[k][j] >= self._p[k][i] + 1 - cons * (1 - self._x[k][i][j]))
+
+            for i in self._pickups_indexer:
+                constraints.append(self._p[k][i + self._n] >= self._p[k][i] + 1)
+
+        return constraints
+
     @cached_property
     def _time_constraints(self) -> List[lp.LpConstraint]:
         constraints = list()
-- 
2.43.0


From 8be50b4ee54f30b852538ccdcd395a964cd56f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:06 +0000
Subject: [PATCH 16/33] fix: use the delivery's own service time in the exact
 model

---
 jinete/algorithms/exacts/models/three_index.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index aab1031..ec87f2f 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -221,7 +221,9 @@ class ThreeIndexLinearModel(LinearModel):
         trip = self._trip_by_position_idx(idx)
         if trip is None:
             return 0
-        return trip.origin_duration
+        if idx in self._pickups_indexer:
+            return trip.origin_duration
+        return trip.destination_duration
 
     def _timeout_by_position_idx(self, idx: int) -> float:
         trip = self._trip_by_position_idx(idx)
-- 
2.43.0


From 166aae4eeb7e9fb425e37f208af0c953db84f964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:20 +0000
Subject: [PATCH 17/33] fix: support own depot windows and unbounded windows
 and timeouts in the exact model

---
 .../algorithms/exacts/models/three_index.py   | 40 ++++++++++++-------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index ec87f2f..b1b21e6 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -193,18 +193,29 @@ class ThreeIndexLinearModel(LinearModel):
     def _idx_by_position(self, position: Position):
         return self._positions.index(position)
 
-    def _time_window_by_position_idx(self, idx: int) -> Tuple[float, float]:
-        position = self._positions[idx]
+    @cached_property
+    def _horizon(self) -> float:
+        # Nothing has to start later than this time: the last opening, and then every visit one after another.
+        earliest = max(
+            max((vehicle.origin_earliest for vehicle in self._vehicles)),
+            max((max(trip.origin_earliest, trip.destination_earliest) for trip in self._trips), default=0.0),
+        )
+        return earliest + sum(
+            self._load_time_by_position_idx(i) + max(position.time_to(other) for other in self._positions)
+            for i, position in enumerate(self._positions)
+        )
+
+    def _time_window_by_position_idx(self, idx: int, k: int) -> Tuple[float, float]:
         trip = self._trip_by_position_idx(idx)
-        if trip is None:
-            earliest, latest = 0, 1440
-        elif position == trip.origin_position:
+        if idx == 0:
+            earliest, latest = self._vehicles[k].origin_earliest, self._horizon
+        elif trip is None:
+            earliest, latest = self._vehicles[k].origin_earliest, self._vehicles[k].destination_latest
+        elif idx in self._pickups_indexer:
             earliest, latest = trip.origin_earliest, trip.origin_latest
-        elif position == trip.destination_position:
-            earliest, latest = trip.destination_earliest, trip.destination_latest
         else:
-            raise Exception("There was a problem related with earliest, latest indices.")
-        return earliest, latest
+            earliest, latest = trip.destination_earliest, trip.destination_latest
+        return earliest, min(latest, self._horizon)
 
     def _capacity_by_position_idx(self, idx: int) -> float:
         trip = self._trip_by_position_idx(idx)
@@ -293,8 +304,8 @@ class ThreeIndexLinearModel(LinearModel):
                 load_time_i = self._load_time_by_position_idx(i)
                 travel_time = self._positions[i].time_to(self._positions[j])
 
-                earliest_i, latest_i = self._time_window_by_position_idx(i)
-                earliest_j, latest_j = self._time_window_by_position_idx(j)
+                earliest_i, latest_i = self._time_window_by_position_idx(i, k)
+                earliest_j, latest_j = self._time_window_by_position_idx(j, k)
 
                 cons = max(0, latest_i + load_time_i + travel_time - earliest_j)
 
@@ -315,17 +326,18 @@ class ThreeIndexLinearModel(LinearModel):
     def _feasibility_constraints(self) -> List[lp.LpConstraint]:
         constraints = list()
         for k in self._routes_indexer:
-            constraint = self._u[k][-1] - self._u[k][0] <= self._vehicles[k].timeout
+            timeout = min(self._vehicles[k].timeout, self._horizon)
+            constraint = self._u[k][-1] - self._u[k][0] <= timeout
             constraints.append(constraint)
 
             for i in self._positions_indexer:
-                earliest, latest = self._time_window_by_position_idx(i)
+                earliest, latest = self._time_window_by_position_idx(i, k)
 
                 constraints.extend([earliest <= self._u[k][i], self._u[k][i] <= latest])
 
             for i in self._pickups_indexer:
                 load_time = self._load_time_by_position_idx(i)
-                timeout = self._timeout_by_position_idx(i)
+                timeout = min(self._timeout_by_position_idx(i), self._horizon)
                 travel_time = self._positions[i].time_to(self._positions[i + self._n])
 
                 constraints.extend(
-- 
2.43.0


From f9f0ef4e0d2cc418fcf3b1aaf62f6378e723f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:31 +0000
Subject: [PATCH 18/33] fix: let trips that do not fit in one vehicle be served
 by another in the exact model

---
 jinete/algorithms/exacts/models/three_index.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index b1b21e6..9aabd2d 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -316,7 +316,7 @@ class ThreeIndexLinearModel(LinearModel):
                 capacity_i = self._capacity_by_position_idx(i)
                 capacity_j = self._capacity_by_position_idx(j)
 
-                cons = self._vehicles[k].capacity + min(0.0, capacity_i)
+                cons = max(self._vehicles[k].capacity, abs(capacity_i)) + min(0.0, capacity_i)
 
                 constraints.append(self._w[k][j] >= self._w[k][i] + capacity_j - cons * (1 - self._x[k][i][j]),)
 
@@ -350,10 +350,13 @@ class ThreeIndexLinearModel(LinearModel):
             for i in self._positions_indexer:
                 capacity = self._capacity_by_position_idx(i)
 
+                if self._vehicles[k].capacity < abs(capacity):
+                    constraints.append(lp.lpSum(self._x[k][i]) == 0)
+
                 constraints.extend(
                     [
                         max(0.0, capacity) <= self._w[k][i],
-                        self._w[k][i] <= self._vehicles[k].capacity + min(0.0, capacity),
+                        self._w[k][i] <= max(self._vehicles[k].capacity, abs(capacity)) + min(0.0, capacity),
                     ]
                 )
 
-- 
2.43.0


From e706b6f91272872d63684f568f8845d0117be492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:46 +0000
Subject: [PATCH 19/33] fix: read the routes of the exact solution by node
 instead of by position

---
 .../algorithms/exacts/models/three_index.py   | 89 ++++++-------------
 1 file changed, 28 insertions(+), 61 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 9aabd2d..2f967b0 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -5,9 +5,6 @@ from __future__ import (
 )
 
 import logging
-from collections import (
-    defaultdict,
-)
 from itertools import (
     product,
 )
@@ -190,9 +187,6 @@ class ThreeIndexLinearModel(LinearModel):
             return None
         return self._trips[(idx % self._n) - 1]
 
-    def _idx_by_position(self, position: Position):
-        return self._positions.index(position)
-
     @cached_property
     def _horizon(self) -> float:
         # Nothing has to start later than this time: the last opening, and then every visit one after another.
@@ -420,70 +414,43 @@ class ThreeIndexLinearModel(LinearModel):
             vehicle = self._vehicles[k]
             route = Route(vehicle)
 
-            positions = self._solution_to_positions(k)
-            stops = self._positions_to_stops(route, positions)
-            trips = self._positions_to_trips(positions)
+            route.first_stop.starting_time = float(self._u[k][0].varValue)
 
-            self._build_planned_trips(vehicle, trips, stops)
-            self._adjust_waiting_times(stops, k)
+            stops = self._solution_to_stops(route, k)
+            self._build_planned_trips(vehicle, stops)
 
-            for stop in stops:
+            for stop in stops.values():
                 route.insert_stop(stop)
 
             routes.add(route)
         return routes
 
-    def _positions_to_trips(self, positions) -> List[Trip]:
-        trips: List[Trip] = list()
-        for position in positions:
-            trip = next((trip for trip in self._trips if trip.origin_position == position), None)
-            if trip is None:
-                continue
-            if trip in trips:
-                continue
-            trips.append(trip)
-        return trips
+    def _solution_to_stops(self, route: Route, k: int) -> Dict[int, Stop]:
+        stops = dict()
+        previous = route.first_stop
+        for idx in self._solution_to_nodes(k):
+            previous = Stop(
+                route.vehicle, self._positions[idx], previous, starting_time=float(self._u[k][idx].varValue),
+            )
+            stops[idx] = previous
+        return stops
+
+    def _solution_to_nodes(self, k: int) -> List[int]:
+        nodes = list()
+        idx = self._following_idx(k, 0)
+        while idx != len(self._positions) - 1:
+            nodes.append(idx)
+            idx = self._following_idx(k, idx)
+        return nodes
 
-    def _build_planned_trips(self, vehicle: Vehicle, trips: List[Trip], stops: List[Stop]) -> List[PlannedTrip]:
-        stop_mapper = self._stop_to_stop_mapper(stops)
+    def _following_idx(self, k: int, idx: int) -> int:
+        return next(j for j in self._positions_indexer if round(self._x[k][idx][j].varValue) == 1)
 
+    def _build_planned_trips(self, vehicle: Vehicle, stops: Dict[int, Stop]) -> List[PlannedTrip]:
         planned_trips = list()
-        for trip in trips:
-            pickup = stop_mapper[trip.origin_position].pop(0)
-            delivery = stop_mapper[trip.destination_position].pop(0)
-            planned_trip = PlannedTrip(vehicle, trip, pickup, delivery)
+        for i in self._pickups_indexer:
+            if i not in stops:
+                continue
+            planned_trip = PlannedTrip(vehicle, self._trip_by_position_idx(i), stops[i], stops[i + self._n])
             planned_trips.append(planned_trip)
         return planned_trips
-
-    def _solution_to_positions(self, k: int) -> List[Position]:
-        ordered_trip_indexes = [idx for idx in sorted(range(len(self._u[k])), key=lambda x: self._u[k][x].varValue)]
-
-        positions = list()
-        for i, j in product(ordered_trip_indexes, self._positions_indexer):
-            if not int(self._x[k][i][j].varValue) == 1:
-                continue
-            positions.append(self._positions[i])
-        return positions
-
-    @staticmethod
-    def _positions_to_stops(route, positions) -> List[Stop]:
-        stops = [route.first_stop]
-        for position in positions:
-            if position == stops[-1].position:
-                continue
-            pickup = Stop(route.vehicle, position, stops[-1])
-            stops.append(pickup)
-        return stops
-
-    @staticmethod
-    def _stop_to_stop_mapper(stops: List[Stop]) -> Dict[Position, List[Stop]]:
-        mapper: Dict[Position, List[Stop]] = defaultdict(list)
-        for stop in stops:
-            mapper[stop.position].append(stop)
-        return mapper
-
-    def _adjust_waiting_times(self, stops: List[Stop], k: int):
-        starting_times = tuple(float(u_k.varValue) for u_k in self._u[k])
-        for stop in stops:
-            stop.flush()
-            stop.starting_time = starting_times[self._idx_by_position(stop.position)]
-- 
2.43.0


From 64b830195f3023f6b4ef4de7634cc5644ecfd5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:54 +0000
Subject: [PATCH 20/33] fix: start and end every exact route at its own
 vehicle's depots

---
 .../algorithms/exacts/models/three_index.py   | 49 +++++++++----------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 2f967b0..0a28591 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -70,7 +70,7 @@ class ThreeIndexLinearModel(LinearModel):
     @cached_property
     def _objective(self) -> Optional[lp.LpConstraintVar]:
         return lp.lpSum(
-            self._x[k][i][j] * self._costs[i][j]
+            self._x[k][i][j] * self._costs[k][i][j]
             for k, i, j in product(self._routes_indexer, self._positions_indexer, self._positions_indexer)
         )
 
@@ -128,7 +128,7 @@ class ThreeIndexLinearModel(LinearModel):
 
     @cached_property
     def _p(self) -> List[List[lp.LpVariable]]:
-        last = len(self._positions) - 1
+        last = 2 * self._n + 1
         return [
             [lp.LpVariable(f"p_{k}_{i}", lowBound=0, upBound=last) for i in self._positions_indexer]
             for k in self._routes_indexer
@@ -143,24 +143,20 @@ class ThreeIndexLinearModel(LinearModel):
         return tuple(self.job.trips)
 
     @cached_property
-    def _positions(self) -> Tuple[Position, ...]:
+    def _positions(self) -> List[Tuple[Position, ...]]:
         origins = tuple(trip.origin_position for trip in self._trips)
         destinations = tuple(trip.destination_position for trip in self._trips)
-        positions = (
-            (self._vehicles[0].origin_position,) + origins + destinations + (self._vehicles[0].destination_position,)
-        )
-
-        return positions
+        return [
+            (vehicle.origin_position,) + origins + destinations + (vehicle.destination_position,)
+            for vehicle in self._vehicles
+        ]
 
     @cached_property
-    def _costs(self):
-        costs = list()
-        for origin in self._positions:
-            origin_costs = list()
-            for destination in self._positions:
-                origin_costs.append(origin.distance_to(destination))
-            costs.append(origin_costs)
-        return costs
+    def _costs(self) -> List[List[List[float]]]:
+        return [
+            [[origin.distance_to(destination) for destination in positions] for origin in positions]
+            for positions in self._positions
+        ]
 
     @property
     def _pickups_indexer(self) -> Iterable[int]:
@@ -176,14 +172,14 @@ class ThreeIndexLinearModel(LinearModel):
 
     @property
     def _positions_indexer(self) -> Iterable[int]:
-        return range(len(self._positions))
+        return range(2 * self._n + 2)
 
     @property
     def _n(self) -> int:
         return len(self._trips)
 
     def _trip_by_position_idx(self, idx: int) -> Optional[Trip]:
-        if idx in (0, len(self._positions) - 1):
+        if idx not in self._nodes_indexer:
             return None
         return self._trips[(idx % self._n) - 1]
 
@@ -195,8 +191,9 @@ class ThreeIndexLinearModel(LinearModel):
             max((max(trip.origin_earliest, trip.destination_earliest) for trip in self._trips), default=0.0),
         )
         return earliest + sum(
-            self._load_time_by_position_idx(i) + max(position.time_to(other) for other in self._positions)
-            for i, position in enumerate(self._positions)
+            self._load_time_by_position_idx(i)
+            + max(positions[i].time_to(other) for positions in self._positions for other in positions)
+            for i in self._positions_indexer
         )
 
     def _time_window_by_position_idx(self, idx: int, k: int) -> Tuple[float, float]:
@@ -217,7 +214,7 @@ class ThreeIndexLinearModel(LinearModel):
             return 0
 
         capacity = trip.capacity
-        if not idx < len(self._positions) / 2:
+        if idx not in self._pickups_indexer:
             capacity *= -1
 
         return capacity
@@ -276,7 +273,7 @@ class ThreeIndexLinearModel(LinearModel):
         # Rules out cycles and deliveries before pickups, also when no time elapses between the involved positions.
         constraints = list()
 
-        cons = len(self._positions)
+        cons = 2 * self._n + 2
         for k in self._routes_indexer:
             for i, j in product(self._positions_indexer, self._positions_indexer):
                 if i == j:
@@ -296,7 +293,7 @@ class ThreeIndexLinearModel(LinearModel):
         for k in self._routes_indexer:
             for i, j in product(self._positions_indexer, self._positions_indexer):
                 load_time_i = self._load_time_by_position_idx(i)
-                travel_time = self._positions[i].time_to(self._positions[j])
+                travel_time = self._positions[k][i].time_to(self._positions[k][j])
 
                 earliest_i, latest_i = self._time_window_by_position_idx(i, k)
                 earliest_j, latest_j = self._time_window_by_position_idx(j, k)
@@ -332,7 +329,7 @@ class ThreeIndexLinearModel(LinearModel):
             for i in self._pickups_indexer:
                 load_time = self._load_time_by_position_idx(i)
                 timeout = min(self._timeout_by_position_idx(i), self._horizon)
-                travel_time = self._positions[i].time_to(self._positions[i + self._n])
+                travel_time = self._positions[k][i].time_to(self._positions[k][i + self._n])
 
                 constraints.extend(
                     [
@@ -430,7 +427,7 @@ class ThreeIndexLinearModel(LinearModel):
         previous = route.first_stop
         for idx in self._solution_to_nodes(k):
             previous = Stop(
-                route.vehicle, self._positions[idx], previous, starting_time=float(self._u[k][idx].varValue),
+                route.vehicle, self._positions[k][idx], previous, starting_time=float(self._u[k][idx].varValue),
             )
             stops[idx] = previous
         return stops
@@ -438,7 +435,7 @@ class ThreeIndexLinearModel(LinearModel):
     def _solution_to_nodes(self, k: int) -> List[int]:
         nodes = list()
         idx = self._following_idx(k, 0)
-        while idx != len(self._positions) - 1:
+        while idx in self._nodes_indexer:
             nodes.append(idx)
             idx = self._following_idx(k, idx)
         return nodes
-- 
2.43.0


From 73567e9af6550f57046dc22c564334ea014b872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:34 +0000
Subject: [PATCH 21/33] fix: return idle routes when the exact model has no
 solution instead of decoding garbage

---
 jinete/algorithms/exacts/models/three_index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 0a28591..daf943a 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -361,6 +361,10 @@ class ThreeIndexLinearModel(LinearModel):
         logger.info("Starting to solve...")
         self._problem.solve(self.solver)
 
+        if self._problem.status != lp.LpStatusOptimal:
+            logger.warning(f'No solution was found, reaching "{lp.LpStatus[self._problem.status]}".')
+            return set(Route(vehicle) for vehicle in self._vehicles)
+
         self._validate()
         logger.info(f'Obtained "{lp.value(self._objective)}" reaching "{lp.LpStatus[self._problem.status]}".')
         return self._solution_to_routes()
-- 
2.43.0


From 98169ebfc581424b90631e2fd64eaac79006beb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:10 +0000
Subject: [PATCH 22/33] fix: refresh the whole candidate when its departure is
 delayed

---
 jinete/algorithms/heuristics/insertion/strategies/abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/insertion/strategies/abc.py b/jinete/algorithms/heuristics/insertion/strategies/abc.py
index f51d163..dc7a080 100644
--- a/jinete/algorithms/heuristics/insertion/strategies/abc.py
+++ b/jinete/algorithms/heuristics/insertion/strategies/abc.py
@@ -71,7 +71,7 @@ class InsertionStrategy(object):
     def _improve_ride_times(self, route: Route, idx: int) -> None:
         if route.stops[1].waiting_time != 0:
             route.stops[0].starting_time += route.stops[1].waiting_time
-            route.stops[0].flush(), route.stops[1].flush()
+            route.flush()
 
         if route.feasible:
             return
-- 
2.43.0


From 4a61db51e0314803f7530a9b4c16af8c895912e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:22 +0000
Subject: [PATCH 23/33] fix: evaluate long routes without exhausting the
 recursion limit

The schedule and the load of a stop were computed through its previous ones recursively, so that asking for
the feasibility of a route of some 140 stops raised a RecursionError.
---
 jinete/models/stops.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/jinete/models/stops.py b/jinete/models/stops.py
index 6f537ae..88fcdea 100644
--- a/jinete/models/stops.py
+++ b/jinete/models/stops.py
@@ -107,13 +107,24 @@ class Stop(Model):
     def previous_capacity(self) -> float:
         if self.previous is None:
             return 0
+        self._compute_previous("capacity")
         return self.previous.capacity
 
+    def _iterate_previous(self) -> Iterator[Stop]:
+        current = self.previous
+        while current is not None:
+            yield current
+            current = current.previous
+
+    def _compute_previous(self, key: str) -> None:
+        # Computing from the oldest stop to the newest one avoids a recursion as deep as the length of the route.
+        pending = tuple(it.takewhile(lambda stop: key not in stop.__dict__, self._iterate_previous()))
+        for stop in reversed(pending):
+            getattr(stop, key)
+
     @property
     def all_previous(self) -> List[Stop]:
-        if self.previous is None:
-            return []
-        return [self.previous] + self.previous.all_previous
+        return list(self._iterate_previous())
 
     @property
     def all_previous_pickups(self) -> Iterator[PlannedTrip]:
@@ -158,6 +169,7 @@ class Stop(Model):
     def previous_departure_time(self) -> float:
         if self.previous is None:
             return self.vehicle.origin_earliest
+        self._compute_previous("departure_time")
         return self.previous.departure_time
 
     @property
@@ -235,5 +247,5 @@ class Stop(Model):
 
     def flush_all_previous(self):
         self.flush()
-        if self.previous is not None:
-            self.previous.flush_all_previous()
+        for stop in self._iterate_previous():
+            stop.flush()
-- 
2.43.0


From b6ecd4c8bb1ae491116691bb3064b1ac3403bd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:57 +0000
Subject: [PATCH 24/33] fix: deep-copy routes with long rides without
 exhausting the recursion limit

Copying a stop followed its references to the delivery of the trips it picks up and from there back to the
previous stops one by one, so that copying a route with a ride over some 100 stops raised a RecursionError.
---
 jinete/models/routes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index 1c019d2..9f074af 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -5,6 +5,7 @@ from __future__ import (
 import itertools as it
 import logging
 from copy import (
+    copy,
     deepcopy,
 )
 from functools import (
@@ -83,7 +84,12 @@ class Route(Model):
         route = Route(vehicle)
         memo[id(self)] = route
 
-        route.stops = deepcopy(self.stops, memo)
+        # Registering all the stops before following their references avoids a recursion as deep as the longest ride.
+        route.stops = [copy(stop) for stop in self.stops]
+        memo.update((id(stop), copied) for stop, copied in zip(self.stops, route.stops))
+        for stop in route.stops:
+            for key in Stop.__slots__:
+                setattr(stop, key, deepcopy(getattr(stop, key), memo))
 
         return route
 
-- 
2.43.0


From ff95a675039dc8ac2a528334d322f767d740750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:51 +0000
Subject: [PATCH 25/33] fix: keep the other trips of a shared stop when
 removing a trip from a route

---
 jinete/models/routes.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index 9f074af..eab7819 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -292,18 +292,27 @@ class Route(Model):
 
     def remove_trip(self, trip: Trip) -> None:
 
-        old_len = len(self.stops)
-
         for i in reversed(range(len(self.stops))):
             stop = self.stops[i]
             if trip not in stop.trips:
                 continue
-            self.remove_stop_at(i)
+            if all(planned_trip.trip == trip for planned_trip in stop.planned_trips):
+                self.remove_stop_at(i)
+            else:
+                self._remove_trip_at(i, trip)
 
-        assert old_len - 2 == len(self.stops)
         assert all(s1 == s2.previous for s1, s2 in zip(self.stops[:-1], self.stops[1:]))
         assert all(s1.departure_time <= s2.arrival_time for s1, s2 in zip(self.stops[:-1], self.stops[1:]))
 
+    def _remove_trip_at(self, idx: int, trip: Trip) -> None:
+        stop = self.stops[idx]
+        stop.pickup_planned_trips = {pt for pt in stop.pickup_planned_trips if pt.trip != trip}
+        stop.delivery_planned_trips = {pt for pt in stop.delivery_planned_trips if pt.trip != trip}
+
+        self.__dict__.pop("feasible", None)
+        for stop in self.stops[idx:]:
+            stop.flush()
+
 
 class RouteCloner(object):
     def __init__(self, route: Route, idx: int = 0):
-- 
2.43.0


From 434f3b345a74e093337bb4c4348c4654a1aaf06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:32 +0000
Subject: [PATCH 26/33] fix: compare services by their contents instead of by
 their hashes

---
 jinete/models/services.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/services.py b/jinete/models/services.py
index 6918ecc..336d242 100644
--- a/jinete/models/services.py
+++ b/jinete/models/services.py
@@ -81,7 +81,7 @@ class Service(Model):
         return self
 
     def __eq__(self, other: Service) -> bool:
-        return hash(self) == hash(other)
+        return isinstance(other, Service) and tuple(self) == tuple(other)
 
     def __hash__(self):
         return hash(tuple(self))
-- 
2.43.0


From 644742ca000fe0a8329f05e6754e3188458e5402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:13 +0000
Subject: [PATCH 27/33] fix: keep the first and last stops of a route when the
 trip they serve is removed

---
 jinete/models/routes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index eab7819..7328654 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -296,7 +296,9 @@ class Route(Model):
             stop = self.stops[i]
             if trip not in stop.trips:
                 continue
-            if all(planned_trip.trip == trip for planned_trip in stop.planned_trips):
+            # The ends of the route are visited even when they serve no trip.
+            is_end = i in (0, len(self.stops) - 1)
+            if not is_end and all(planned_trip.trip == trip for planned_trip in stop.planned_trips):
                 self.remove_stop_at(i)
             else:
                 self._remove_trip_at(i, trip)
-- 
2.43.0


From dd07c8b1e2291ba5ff3077e2d20f6b5a7e36251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:52 +0000
Subject: [PATCH 28/33] fix: allow stops to be inserted at and removed from the
 ends of a route

---
 jinete/models/routes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index 7328654..a155657 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -248,7 +248,7 @@ class Route(Model):
         raise PreviousStopNotInRouteException(self, stop)
 
     def insert_stop_at(self, idx: int, stop: Stop) -> Stop:
-        following_stop = self.stops[idx] or None
+        following_stop = self.stops[idx] if idx < len(self.stops) else None
 
         assert set(stop.pickup_planned_trips).isdisjoint(stop.delivery_planned_trips)
 
@@ -264,8 +264,8 @@ class Route(Model):
         return stop
 
     def remove_stop_at(self, idx: int) -> Stop:
-        previous_stop = self.stops[idx - 1]
-        following_stop = self.stops[idx + 1] or None
+        previous_stop = self.stops[idx - 1] if idx != 0 else None
+        following_stop = self.stops[idx + 1] if idx + 1 < len(self.stops) else None
 
         if following_stop is not None:
             following_stop.previous = previous_stop
-- 
2.43.0


From 7f1230af8866910f34089d68e48afb46aaa2a8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:42 +0000
Subject: [PATCH 29/33] fix: apply the latest finish of HashCode rides to their
 end

---
 jinete/loaders/formatters/hashcode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinete/loaders/formatters/hashcode.py b/jinete/loaders/formatters/hashcode.py
index ee20fb9..734d624 100644
--- a/jinete/loaders/formatters/hashcode.py
+++ b/jinete/loaders/formatters/hashcode.py
@@ -70,8 +70,8 @@ class HashCodeLoaderFormatter(LoaderFormatter):
         earliest: float,
         latest: float,
     ) -> Trip:
-        origin = Service(position=surface.get_or_create_position([x1, y1]), earliest=earliest, latest=latest,)
-        destination = Service(position=surface.get_or_create_position([x2, y2]),)
+        origin = Service(position=surface.get_or_create_position([x1, y1]), earliest=earliest)
+        destination = Service(position=surface.get_or_create_position([x2, y2]), latest=latest)
         trip = Trip(identifier, on_time_bonus=bonus, origin=origin, destination=destination)
         logger.debug("Created trip!")
         return trip
-- 
2.43.0


From 57c09238ed645861e1e742beae3147b4310011c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:47 +0000
Subject: [PATCH 30/33] fix: do not delay the departure of a route past the
 time window of its first stop when inserting trips

---
 jinete/algorithms/heuristics/insertion/strategies/abc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/insertion/strategies/abc.py b/jinete/algorithms/heuristics/insertion/strategies/abc.py
index dc7a080..a775cb8 100644
--- a/jinete/algorithms/heuristics/insertion/strategies/abc.py
+++ b/jinete/algorithms/heuristics/insertion/strategies/abc.py
@@ -70,7 +70,8 @@ class InsertionStrategy(object):
 
     def _improve_ride_times(self, route: Route, idx: int) -> None:
         if route.stops[1].waiting_time != 0:
-            route.stops[0].starting_time += route.stops[1].waiting_time
+            departure = route.stops[0]
+            departure.starting_time = min(departure.starting_time + route.stops[1].waiting_time, departure.latest)
             route.flush()
 
         if route.feasible:
-- 
2.43.0


From bb9138a58bf16e3c387caef5e6335e6d6f0f3003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:25 +0000
Subject: [PATCH 31/33] fix: delay a shared pickup until the ride limits of all
 its trips hold when inserting trips

---
 .../algorithms/heuristics/insertion/strategies/abc.py  | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jinete/algorithms/heuristics/insertion/strategies/abc.py b/jinete/algorithms/heuristics/insertion/strategies/abc.py
index a775cb8..c49492d 100644
--- a/jinete/algorithms/heuristics/insertion/strategies/abc.py
+++ b/jinete/algorithms/heuristics/insertion/strategies/abc.py
@@ -3,9 +3,6 @@ from __future__ import (
 )
 
 import logging
-from operator import (
-    attrgetter,
-)
 from typing import (
     TYPE_CHECKING,
 )
@@ -79,11 +76,12 @@ class InsertionStrategy(object):
 
         for i in reversed(range(max(idx, 1), len(route.stops))):
             stop = route.stops[i]
-            planned_trip = max(stop.pickup_planned_trips, default=None, key=attrgetter("duration"))
-            if planned_trip is None:
+            excesses = (planned_trip.duration - planned_trip.timeout for planned_trip in stop.pickup_planned_trips)
+            excess = max(excesses, default=None)
+            if excess is None:
                 continue
 
-            stop.starting_time += max(planned_trip.duration - planned_trip.timeout, 0)
+            stop.starting_time += max(excess, 0)
 
             for s in route.stops[i:]:
                 s.flush()
-- 
2.43.0


From e16c6b67bdda96ac6a8127b92a8333945a874877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:12 +0000
Subject: [PATCH 32/33] fix: measure the distance of a stop in the direction
 driven

---
 jinete/models/stops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/stops.py b/jinete/models/stops.py
index 88fcdea..bbc67c6 100644
--- a/jinete/models/stops.py
+++ b/jinete/models/stops.py
@@ -159,7 +159,7 @@ class Stop(Model):
 
     @property
     def distance(self) -> float:
-        return self.position.distance_to(self.previous_position)
+        return self.previous_position.distance_to(self.position)
 
     @cached_property
     def arrival_time(self):
-- 
2.43.0


From d6027f7265352933703c5db34bb931057ec9bda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:53 +0000
Subject: [PATCH 33/33] fix: keep the candidates of the ranking sorted, so that
 the choice is among the best ones

---
 jinete/algorithms/heuristics/insertion/iterators/ranking.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/ranking.py b/jinete/algorithms/heuristics/insertion/iterators/ranking.py
index d8845ae..7acd08a 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/ranking.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/ranking.py
@@ -94,8 +94,7 @@ class RankingInsertionIterator(InsertionIterator):
                     candidates.pop()
 
                 candidates.append(current)
-
-            self._criterion.sorted(candidates, inplace=True)
+                self._criterion.sorted(candidates, inplace=True)
 
         if not any(candidates):
             raise StopIteration
-- 
2.43.0

