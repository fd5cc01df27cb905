From 2167a411a17d337ab631adcbd8f90bab463dcb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:01 +0000
Subject: [PATCH 01/55] fix: compare link endpoint names by value when closing
 and reopening links

---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index c78e94c..5aa6151 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -985,7 +985,7 @@ class Ecosystem:
         removed = False
 
         for i in range(0, len(self.locations[x].links)):
-            if self.locations[x].links[i].endpoint.name is not endpoint:
+            if self.locations[x].links[i].endpoint.name != endpoint:
                 new_links += [self.locations[x].links[i]]
                 continue
 
@@ -1039,7 +1039,7 @@ class Ecosystem:
         #       )
 
         for i in range(0, len(self.locations[x].closed_links)):
-            if self.locations[x].closed_links[i].endpoint.name is not endpoint:
+            if self.locations[x].closed_links[i].endpoint.name != endpoint:
                 # print("[{}] to [{}] ({})".format(
                 #     startpoint,
                 #     self.locations[x].closed_links[i].endpoint.name,
-- 
2.43.0


From 4fa56e200c7d1d07f011feb4271ee465de96c092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:07 +0000
Subject: [PATCH 02/55] fix: two-way link closing, removal and reopening affect
 both directions

---
 flee/flee.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 5aa6151..08b2cdc 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1086,14 +1086,16 @@ class Ecosystem:
         Returns:
             bool: Description
         """
+        removed = self._remove_link_1way(
+            startpoint=startpoint, endpoint=endpoint, close_only=close_only
+        )
         if twoway:
-            return self._remove_link_1way(
+            removed_back = self._remove_link_1way(
                 startpoint=endpoint, endpoint=startpoint, close_only=close_only
             )
+            removed = removed or removed_back
 
-        return self._remove_link_1way(
-            startpoint=startpoint, endpoint=endpoint, close_only=close_only
-        )
+        return removed
 
 
     @check_args_type
@@ -1111,10 +1113,12 @@ class Ecosystem:
         Returns:
             bool: Description
         """
+        reopened = self._reopen_link_1way(startpoint=startpoint, endpoint=endpoint)
         if twoway:
-            return self._reopen_link_1way(startpoint=endpoint, endpoint=startpoint)
+            reopened_back = self._reopen_link_1way(startpoint=endpoint, endpoint=startpoint)
+            reopened = reopened or reopened_back
 
-        return self._reopen_link_1way(startpoint=startpoint, endpoint=endpoint)
+        return reopened
 
 
     @check_args_type
-- 
2.43.0


From 7825e4166baa149c1f81c5fe2f6a48d4fa44a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:11 +0000
Subject: [PATCH 03/55] fix: unknown location names in closures no longer act
 on the first location

---
 flee/flee.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 08b2cdc..0efb13d 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -958,8 +958,7 @@ class Ecosystem:
         #         x = i
 
         if x < 0:
-            print("#Warning: location not found in remove_link", file=sys.stderr)
-            return False
+            print("#Warning: location {} not found.".format(name), file=sys.stderr)
 
         return x
 
@@ -982,6 +981,8 @@ class Ecosystem:
         """
         new_links = []
         x = self._convert_location_name_to_index(name=startpoint)
+        if x < 0:
+            return False
         removed = False
 
         for i in range(0, len(self.locations[x].links)):
@@ -1030,6 +1031,8 @@ class Ecosystem:
         """
         new_closed_links = []
         x = self._convert_location_name_to_index(name=startpoint)
+        if x < 0:
+            return False
         reopened = False
         # print("Reopening link from {} to {}, "
         #       "closed link list length = {}.".format(
@@ -1375,7 +1378,10 @@ class Ecosystem:
         Returns:
             None.
         """     
-        self.locations[self._convert_location_name_to_index(location_name)].close_camp(IDP)
+        x = self._convert_location_name_to_index(location_name)
+        if x < 0:
+            return
+        self.locations[x].close_camp(IDP)
         print("Time = {}. Close camp {}, IDP: {}.".format(self.time, location_name, IDP), file=sys.stderr)
 
 
@@ -1393,7 +1399,10 @@ class Ecosystem:
             None.
         """
 
-        l = self.locations[self._convert_location_name_to_index(location_name)]
+        x = self._convert_location_name_to_index(location_name)
+        if x < 0:
+            return
+        l = self.locations[x]
 
         l.town = False
         l.camp = False
@@ -1449,7 +1458,10 @@ class Ecosystem:
         Returns:
             None.
         """
-        self.locations[self._convert_location_name_to_index(location_name)].open_camp(IDP)
+        x = self._convert_location_name_to_index(location_name)
+        if x < 0:
+            return
+        self.locations[x].open_camp(IDP)
         print("Time = {}. Open camp {}, IDP: {}.".format(self.time, location_name, IDP), file=sys.stderr)
 
 
@@ -1468,6 +1480,8 @@ class Ecosystem:
             None.
         """
         id1 = self._convert_location_name_to_index(loc1_name)
+        if id1 < 0:
+            return
         for i in range(0, len(self.locations[id1].links)):
             if self.locations[id1].links[i].endpoint.name == loc2_name:
                 old_val = self.locations[id1].links[i].forced_redirection
-- 
2.43.0


From b1b6035d1fb25355d93cc2f2045b0b9a2ca0e41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:47 +0000
Subject: [PATCH 04/55] fix: closing or reopening a location handles every link
 in the requested direction

---
 flee/flee.py | 80 ++++++++++++++++------------------------------------
 1 file changed, 24 insertions(+), 56 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 0efb13d..e9773e0 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1182,63 +1182,31 @@ class Ecosystem:
             if self.locationNames[i] == location_name:
                 changed_anything = True
 
-                link_set = self.locations[i].links
-                if mode == "reopen":
-                    link_set = self.locations[i].closed_links
-
-                j = 0
-                while j < len(link_set):
-                    if Debug:
-                        print(
-                            "starting to {} link "
-                            "[{}] [{}] in direction {}".format(
-                                mode, location_name, link_set[j].endpoint.name, direction
-                            ),
-                            file=sys.stderr,
-                        )
-                    if mode == "close":
-
-                        if dir_mode % 2 == 0:
-                            self.close_link(
-                                startpoint=link_set[j].endpoint.name,
-                                endpoint=self.locationNames[i],
-                                twoway=False,
-                            )
-
-                        if dir_mode > 0:
-                            if self.close_link(
-                                startpoint=self.locationNames[i],
-                                endpoint=link_set[j].endpoint.name,
-                                twoway=False,
-                            ):
-                                # shrink the link list. # This operation
-                                # affects the overall loop, so no major
-                                # operations should take place after this.
-                                link_set = self.locations[i].links
-                        else:
-                            j += 1
-
-                    elif mode == "reopen":
-
-                        if dir_mode % 2 == 0:
-                            self.reopen_link(
-                                startpoint=link_set[j].endpoint.name,
-                                endpoint=self.locationNames[i],
-                                twoway=False,
+                change_link = self.reopen_link if mode == "reopen" else self.close_link
+
+                for loc in self.locations:
+                    link_set = loc.closed_links if mode == "reopen" else loc.links
+                    # Collect the names first, as the operations below modify the link lists.
+                    endpoint_names = list(dict.fromkeys(link.endpoint.name for link in link_set))
+
+                    if loc is self.locations[i]:
+                        if dir_mode == 0:
+                            continue
+                    elif dir_mode % 2 == 0 and location_name in endpoint_names:
+                        endpoint_names = [location_name]
+                    else:
+                        continue
+
+                    for endpoint_name in endpoint_names:
+                        if Debug:
+                            print(
+                                "starting to {} link "
+                                "[{}] [{}] in direction {}".format(
+                                    mode, loc.name, endpoint_name, direction
+                                ),
+                                file=sys.stderr,
                             )
-
-                        if dir_mode > 0:
-                            if self.reopen_link(
-                                startpoint=self.locationNames[i],
-                                endpoint=link_set[j].endpoint.name,
-                                twoway=False,
-                            ):
-                                # shrink the closed link list. # This operation
-                                # affects the overall loop, so no major
-                                # operations should take place after this.
-                                link_set = self.locations[i].closed_links
-                            else:
-                                j += 1
+                        change_link(startpoint=loc.name, endpoint=endpoint_name, twoway=False)
 
         return changed_anything
 
-- 
2.43.0


From 0a737369f9a614ec905d1dc6a1ac03e0f9644ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:53 +0000
Subject: [PATCH 05/55] fix: forced redirection changes also apply to links
 that are closed at the time

---
 flee/flee.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index e9773e0..1e90abc 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1450,10 +1450,11 @@ class Ecosystem:
         id1 = self._convert_location_name_to_index(loc1_name)
         if id1 < 0:
             return
-        for i in range(0, len(self.locations[id1].links)):
-            if self.locations[id1].links[i].endpoint.name == loc2_name:
-                old_val = self.locations[id1].links[i].forced_redirection
-                self.locations[id1].links[i].forced_redirection = value
+        # Links that are closed at the moment keep the new value for when they reopen.
+        for link in self.locations[id1].links + self.locations[id1].closed_links:
+            if link.endpoint.name == loc2_name:
+                old_val = link.forced_redirection
+                link.forced_redirection = value
                 print("Time = {}. Redirection {}-{} changed from {} to {}.".format(self.time, loc1_name, loc2_name, old_val, value), file=sys.stderr)
 
 
-- 
2.43.0


From 83e1023ff9c07ad1aabc27d084392f72cf483ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 06/55] fix: changing a location into a conflict zone no longer
 fails, and updates spawn weights

---
 flee/flee.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 1e90abc..9aff49e 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1388,7 +1388,7 @@ class Ecosystem:
                     l.movechance = SimulationSettings.move_rules["IDPCampMoveChance"]
         elif "conflict" in location_type.lower():
             l.movechance = SimulationSettings.move_rules["ConflictMoveChance"]
-            l.conflict = float(self.attributes.get("conflict_intensity",1.0))
+            l.conflict = float(l.attributes.get("conflict_intensity",1.0))
         elif "forward" in location_type.lower():
             l.movechance = 1.0
             l.forward = True
@@ -1405,11 +1405,13 @@ class Ecosystem:
                 print(f"Change to town.", file=sys.stderr)
         else:
             print(
-                "Error in creating Location() object: cannot parse location_type value of"
-                " {} for location object with name {}".format(location_type, name),
+                "Error in changing location type: cannot parse location_type value of"
+                " {} for location object with name {}".format(location_type, location_name),
                 file=sys.stderr
             )
 
+        spawning.refresh_spawn_weights(self)
+
         print(f"Time = {self.time}. Location {location_name} changed type to {location_type}.", file=sys.stderr)
 
 
-- 
2.43.0


From f49e1303b9a82aa52aa2062c25cb838b2c9b078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 07/55] fix: import spawning in moving, as used by the
 ethnicity rules

---
 flee/moving.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flee/moving.py b/flee/moving.py
index 41fbd30..de808e0 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -4,6 +4,7 @@ import numpy as np
 import random
 from beartype.typing import List, Optional, Tuple
 from flee.SimulationSettings import SimulationSettings
+import flee.spawning as spawning
 
 if os.getenv("FLEE_TYPE_CHECK") is not None and os.environ["FLEE_TYPE_CHECK"].lower() == "true":
     from beartype import beartype as check_args_type
-- 
2.43.0


From 2d6be2faafc145ff5cf03c84f0a156a9c0c5ac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 08/55] fix: accept location attributes read from CSV in
 getAttributeRatio

---
 flee/spawning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 512f11a..024ca5a 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -32,7 +32,7 @@ def getAttributeRatio(location, attr_name):
     Returns:
         float: Ratio of attribute value to maximum attribute value in the location.
     """
-    return location.attributes[attr_name] / float(location.pop)
+    return float(location.attributes[attr_name]) / float(location.pop)
 
 
 def refresh_spawn_weights(e):
-- 
2.43.0


From 4f9ffa9e3d28465f20f61dc34aa0a7d0334fce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 09/55] fix: agents without any route stay put, and awareness
 level 0 selects adjacent locations by name

---
 flee/crawling.py |  4 ++--
 flee/flee.py     |  4 ++++
 flee/moving.py   | 10 ++++++++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index c1f2d30..21778ba 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -261,9 +261,9 @@ def generateLocationRoutes(l, time: int, debug: bool = False):
 
   l.routes = {}
 
+  # Agents pick a random adjacent location in this case, so no routes are needed.
   if SimulationSettings.move_rules["AwarenessLevel"] == 0:
-    linklen = len(l.links)
-    return [np.random.randint(0, linklen)]
+    return l.routes
 
   for k, e in enumerate(l.links):
     calculateLocCrawlLinkWeight(
diff --git a/flee/flee.py b/flee/flee.py
index 9aff49e..73975c3 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -140,6 +140,10 @@ class Person:
             or `None` if the agent's route is empty 
             or the next link is invalid.
         """
+        # No route found, so the agent stays where it is.
+        if len(self.route) == 0:
+            return None
+
         for l in self.location.links:
             # If the name of the destination on the current link is same as the agents current waypoint on the route:
             if l.endpoint.name == self.route[0]:
diff --git a/flee/moving.py b/flee/moving.py
index de808e0..4e2bf1d 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -454,6 +454,9 @@ def pruneRoutes(weights, routes):
         #check_routes(weights, routes, "LOTHRESHOLD")
         return weights, routes
 
+    if len(weights) == 0:
+        return weights, routes
+
     min_weight_threshold = max(weights) / threshold
     i = 0
     while i < len(weights):
@@ -485,8 +488,11 @@ def selectRoute(a, time: int, debug: bool = False, return_all_routes: bool = Fal
   routes = []
 
   if SimulationSettings.move_rules["AwarenessLevel"] == 0:
+      # Pick a random adjacent location. Routes consist of location names.
       linklen = len(a.location.links)
-      return [np.random.randint(0, linklen)]
+      if linklen == 0:
+          return []
+      return [a.location.links[np.random.randint(0, linklen)].endpoint.name]
 
   if SimulationSettings.move_rules["FixedRoutes"] is True:
       for l in a.location.routes.keys():
@@ -524,7 +530,7 @@ def selectRoute(a, time: int, debug: bool = False, return_all_routes: bool = Fal
   if route == None:
       print("WARNING: Empty route (None type) generated in selectRoute.", file=sys.stderr)
       print(f"Location: {a.location.name}, {weights}, {routes}", file=sys.stderr)
-      #sys.exit()
+      return []
   elif len(route) == 0:
       print(f"ERROR: Empty route {route} generated in selectRoute.", file=sys.stderr)
       sys.exit()
-- 
2.43.0


From 582867003dc036b8c1d99297fc2404eec634591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 10/55] fix: clearLocationsFromAgents keeps the other agents
 and copes with deactivated ones

---
 flee/flee.py  | 5 +++--
 flee/pflee.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 73975c3..747cd45 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1818,8 +1818,9 @@ class Ecosystem:
         """
         new_agents = []
         for i in range(0, len(self.agents)):
-            if self.agents[i].location.name not in location_names:
-                new_agents += self.agents[i]  # agent is preserved in ecosystem
+            # Deactivated agents (see camps_are_sinks) have no location.
+            if self.agents[i].location is None or self.agents[i].location.name not in location_names:
+                new_agents += [self.agents[i]]  # agent is preserved in ecosystem
             else:
                 # agent is removed from the ecosystem and number of agents
                 # drops by one.
diff --git a/flee/pflee.py b/flee/pflee.py
index 23c1b19..5a139d1 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -687,7 +687,8 @@ class Ecosystem(flee.Ecosystem):
 
         new_agents = []
         for agent in self.agents:
-            if agent.location.name not in location_names:
+            # Deactivated agents (see camps_are_sinks) have no location.
+            if agent.location is None or agent.location.name not in location_names:
                 new_agents += [agent]
             else:
                 # print("Agent removed: ", agent.location.name)
-- 
2.43.0


From 67e1aab0712613acc0d55ad0edc94807346332d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 11/55] fix: camp sinks work in parallel runs and with
 probabilities read from CSV; reset visited locations daily in pflee

---
 flee/flee.py  |  2 +-
 flee/pflee.py | 20 +++++++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 747cd45..366e1eb 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1676,7 +1676,7 @@ class Ecosystem:
                     if a.location is not None:
                         if a.location.camp == True:
                             outcome = random.random()
-                            if outcome < a.location.attributes.get("deactivation_probability", 0.0):
+                            if outcome < float(a.location.attributes.get("deactivation_probability", 0.0)):
                                 a.location = None
 
         self.time += 1
diff --git a/flee/pflee.py b/flee/pflee.py
index 5a139d1..609a9be 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import os
+import random
 import sys
 from functools import wraps
 from typing import List, Optional
@@ -853,14 +854,18 @@ class Ecosystem(flee.Ecosystem):
 
         # update agent locations
         for a in self.agents:
-            a.evolve(self, time=self.time)
+            if SimulationSettings.log_levels["agent"] > 1:
+                a.locations_visited = []
+            if a.location is not None:
+                a.evolve(self, time=self.time)
 
         # print("NumAgents after evolve:", file=sys.stderr)
         self.updateNumAgents(CountClosed=True, log=False)
 
         for a in self.agents:
-            a.finish_travel(self, time=self.time)
-            a.timesteps_since_departure += 1
+            if a.location is not None:
+                a.finish_travel(self, time=self.time)
+                a.timesteps_since_departure += 1
 
         if SimulationSettings.log_levels["agent"] > 0:
             write_agents_par(rank=self.mpi.rank, agents=self.agents, time=self.time)
@@ -886,10 +891,11 @@ class Ecosystem(flee.Ecosystem):
         if SimulationSettings.spawn_rules["camps_are_sinks"] == True:
             for a in self.agents:
                 if a.travelling == False:
-                    if a.location.camp == True:
-                        outcome = random.random()
-                        if outcome < a.location.attributes.get("deactivation_probability", 0.0):
-                            a.location = None
+                    if a.location is not None:
+                        if a.location.camp == True:
+                            outcome = random.random()
+                            if outcome < float(a.location.attributes.get("deactivation_probability", 0.0)):
+                                a.location = None
 
         self.time += 1
 
-- 
2.43.0


From 055f2eaa9d7d9e81f275c91ec839df41c918448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:19 +0000
Subject: [PATCH 12/55] fix: pflee numIDPs no longer counts every IDP once per
 process

---
 flee/pflee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index 609a9be..c94217f 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -468,8 +468,8 @@ class Ecosystem(flee.Ecosystem):
             if loc.idpcamp:
                 num_idps += loc.numAgents
 
-        num_idps_all = self.mpi.CalcCommWorldTotalSingle(num_idps)
-        return num_idps_all
+        # numAgents already holds the total over all processes.
+        return int(num_idps)
 
 
     @check_args_type
-- 
2.43.0


From 059ee4f690bc2a12d09b74ca2a591a06cab1dbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 13/55] fix: pflee spawn counts count every agent once, and the
 last person of a population can be spawned

---
 flee/pflee.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index c94217f..fb08767 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -617,9 +617,8 @@ class Ecosystem(flee.Ecosystem):
             None.
         """
         if SimulationSettings.spawn_rules["TakeFromPopulation"]:
-            if location.pop > 1: 
+            if location.pop > 0:
                 location.pop -= 1
-                location.numAgentsSpawnedOnRank += 1
                 location.numAgentsSpawned += 1
             else:
                 print(
@@ -627,9 +626,11 @@ class Ecosystem(flee.Ecosystem):
                     "population of the conflict zones. Please amend locations.csv." 
                 )
                 location.print()
-                assert location.pop > 1
+                assert location.pop > 0
         self.total_agents += 1
         if self.total_agents % self.mpi.size == self.mpi.rank:
+            if SimulationSettings.spawn_rules["TakeFromPopulation"]:
+                location.numAgentsSpawnedOnRank += 1
             self.agents.append(Person(self, location=location, attributes=attributes))
 
 
-- 
2.43.0


From a62a15a580090ebeaa02458d17887daedb7c5995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 14/55] fix: random spawn locations and spawn numbers are the
 same on all processes of a parallel run

---
 flee/flee.py     | 16 ++++++++++++++++
 flee/pflee.py    | 34 ++++++++++++++++++++++++++++++++++
 flee/spawning.py |  4 ++--
 3 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 366e1eb..f6ce751 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1620,6 +1620,22 @@ class Ecosystem:
         ).tolist()
 
 
+    @check_args_type
+    def synchronizeDraw(self, value):
+        """
+        Summary:
+            Makes sure that a randomly drawn value is the same on all processes.
+            Nothing to do here, as flee.py is sequential.
+
+        Args:
+            value: the value drawn on this process.
+
+        Returns:
+            The value to use.
+        """
+        return value
+
+
     @check_args_type
     def evolve(self) -> None:
         """
diff --git a/flee/pflee.py b/flee/pflee.py
index fb08767..28f3528 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -671,6 +671,40 @@ class Ecosystem(flee.Ecosystem):
             self.insertAgent(location=location)
 
 
+    @check_args_type
+    def pick_spawn_locations(self, number: int = 1) -> list:
+        """
+        Summary:
+            Picks spawn locations as in the sequential version, with process 0
+            making the choice, such that all processes use the same locations.
+
+        Args:
+            number (int, optional): The number of locations to sample. Defaults to 1.
+
+        Returns:
+            list[Location]: A list of locations.
+        """
+        ids = [loc.id for loc in super().pick_spawn_locations(number)]
+        ids = self.mpi.comm.bcast(ids, root=0)
+
+        return [self.locations[i] for i in ids]
+
+
+    @check_args_type
+    def synchronizeDraw(self, value):
+        """
+        Summary:
+            Replaces a randomly drawn value by the value drawn on process 0.
+
+        Args:
+            value: the value drawn on this process.
+
+        Returns:
+            The value drawn on process 0.
+        """
+        return self.mpi.comm.bcast(value, root=0)
+
+
     @check_args_type
     def clearLocationsFromAgents(self, location_names: List[str]) -> None:
         """
diff --git a/flee/spawning.py b/flee/spawning.py
index 024ca5a..448c884 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -254,7 +254,7 @@ def spawn_daily_displaced(e, t, d):
                 num_spawned = int(SimulationSettings.spawn_rules["displaced_per_conflict_day"] * e.locations[i].pop * e.locations[i].conflict)
 
             elif SimulationSettings.spawn_rules["conflict_spawn_mode"].lower() == "poisson":
-                num_spawned = np.random.poisson(SimulationSettings.spawn_rules["displaced_per_conflict_day"] * e.locations[i].conflict)
+                num_spawned = e.synchronizeDraw(np.random.poisson(SimulationSettings.spawn_rules["displaced_per_conflict_day"] * e.locations[i].conflict))
 
         ## Doing the actual spawning here.
         for j in range(0, num_spawned):
@@ -281,7 +281,7 @@ def spawn_daily_displaced(e, t, d):
                 num_spawned = int(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level] * e.locations[i].pop)
     
             elif SimulationSettings.spawn_rules["flood_spawn_mode"].lower() == "poisson":
-                num_spawned = np.random.poisson(int(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level]))
+                num_spawned = e.synchronizeDraw(np.random.poisson(int(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level])))
 
         ## Doing the actual spawning here.
         for j in range(0, num_spawned):
-- 
2.43.0


From 8af7f5e152c52eeadba035ec7bdd551292193555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:49 +0000
Subject: [PATCH 15/55] fix: pflee keeps counting agents on roads that were
 closed under them

---
 flee/pflee.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index 28f3528..7f5c81a 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -535,24 +535,18 @@ class Ecosystem(flee.Ecosystem):
         """
         mode = self.latency_mode
 
-        total = 0
-
         if mode == "low_latency":
             for loc in self.locations:
                 loc.numAgents = self.mpi.CalcCommWorldTotalSingle(loc.numAgentsOnRank)
-                total += loc.numAgents
                 # print("location:", self.time, loc.name, loc.numAgents, file=sys.stderr)
                 for link in loc.links:
                     link.numAgents = self.mpi.CalcCommWorldTotalSingle(link.numAgentsOnRank)
                     # print(self.time, "link:", loc.name, link.numAgents, file=sys.stderr)
-                    total += link.numAgents
                 if CountClosed:
                     for link in loc.closed_links:
                         link.numAgents = self.mpi.CalcCommWorldTotalSingle(link.numAgentsOnRank)
                         # print(self.time, "link [closed]:", loc.name, link.numAgents,
                         #       file=sys.stderr)
-                        total += link.numAgents
-            self.total_agents = total
         elif mode == "high_latency":
             buf_len = 0
 
@@ -590,7 +584,9 @@ class Ecosystem(flee.Ecosystem):
                         link.numAgents = new_buffer[index]
                         index += 1
 
-            self.total_agents = np.sum(new_buffer)
+        # The counts above exclude agents on roads that have been closed under
+        # them, so the total is derived from the agents themselves.
+        self.total_agents = int(self.mpi.CalcCommWorldTotalSingle(len(self.agents)))
 
         if self.mpi.rank == 0 and log is True:
             print(
-- 
2.43.0


From 74f65fb21a683114ac60ea423bc24a9cacf71056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 16/55] fix: fixed routes are regenerated for every location on
 every process, from up-to-date scores

---
 flee/flee.py    | 24 +++++++++++++++++++++++-
 flee/pflee.py   | 12 +++---------
 flee/scoring.py |  5 -----
 3 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index f6ce751..c47b3f0 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -13,6 +13,7 @@ from flee.SimulationSettings import SimulationSettings
 import flee.moving as moving
 import flee.spawning as spawning
 import flee.scoring as scoring
+import flee.crawling as crawling
 
 if os.getenv("FLEE_TYPE_CHECK") is not None and os.environ["FLEE_TYPE_CHECK"].lower() == "true":
     from beartype import beartype as check_args_type
@@ -1620,6 +1621,26 @@ class Ecosystem:
         ).tolist()
 
 
+    @check_args_type
+    def _updateLocationRoutes(self) -> None:
+        """
+        Summary:
+            Regenerates the routes of all locations, if FixedRoutes is enabled.
+            To be called when all location scores are up to date, because
+            route weights depend on the scores of other locations.
+
+        Args:
+            None.
+
+        Returns:
+            None.
+        """
+        for loc in self.locations:
+            loc.routes = {}
+            if SimulationSettings.move_rules["FixedRoutes"] is True:
+                crawling.generateLocationRoutes(loc, self.time)
+
+
     @check_args_type
     def synchronizeDraw(self, value):
         """
@@ -1652,9 +1673,10 @@ class Ecosystem:
         
         # update location scores
         for loc in self.locations:
-            loc.routes = {}
             scoring.updateLocationScore(self.time, loc)
 
+        self._updateLocationRoutes()
+
         # update agent locations
         for a in self.agents:
             if SimulationSettings.log_levels["agent"] > 1:
diff --git a/flee/pflee.py b/flee/pflee.py
index 7f5c81a..401125b 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -7,7 +7,7 @@ from functools import wraps
 from typing import List, Optional
 
 import numpy as np
-from flee import flee,scoring,spawning,crawling
+from flee import flee,scoring,spawning
 from flee.Diagnostics import write_agents_par,write_links_par
 from flee.SimulationSettings import SimulationSettings
 from mpi4py import MPI
@@ -838,7 +838,6 @@ class Ecosystem(flee.Ecosystem):
             # Scores remain perfectly updated in classic mode.
             for loc in self.locations:
                 loc.time = self.time
-                loc.routes = {}
                 scoring.updateLocationScore(self.time, loc)
 
         elif self.parallel_mode == "loc-par":
@@ -861,14 +860,9 @@ class Ecosystem(flee.Ecosystem):
                 start_loc_local=offset, end_loc_local=offset + num_locs_on_this_rank
             )
 
-            # Ensure Location Routes are updated on all cores for now.
-            if SimulationSettings.move_rules["FixedRoutes"] is True:
-                for i in range(len(self.locations)):
-                    loc = self.locations[i]
-                    if len(loc.routes) == 0:
-                        #print("INFO: Generating location routes.", file=sys.stderr)
-                        crawling.generateLocationRoutes(loc, self.time)
 
+        # Ensure Location Routes are updated on all cores for now.
+        self._updateLocationRoutes()
 
         # SYNCHRONIZE SPAWN COUNTS IN LOCATIONS (needed for all versions).
         spawn_counts = np.zeros(len(self.locations), dtype="i")
diff --git a/flee/scoring.py b/flee/scoring.py
index 9d745f7..33bb71d 100644
--- a/flee/scoring.py
+++ b/flee/scoring.py
@@ -1,5 +1,4 @@
 from flee.SimulationSettings import SimulationSettings
-from flee import crawling
 import numpy as np
 import os
 
@@ -124,7 +123,3 @@ def updateLocationScore(time: int, loc) -> None:
     loc.setScore(1, score)
     # print(time, loc.name,loc.camp,loc.foreign,loc.scores)
 
-    if SimulationSettings.move_rules["FixedRoutes"] is True:
-        #print("INFO: Generating location routes.", file=sys.stderr)
-        crawling.generateLocationRoutes(loc, time)
-
-- 
2.43.0


From fc94daef96c5d6e0e27eb40adc49f32135e4932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 17/55] fix: spawn weights are those of the current day and
 population, also in parallel runs

---
 flee/pflee.py    | 2 ++
 flee/spawning.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/flee/pflee.py b/flee/pflee.py
index 401125b..fd3b645 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -823,6 +823,8 @@ class Ecosystem(flee.Ecosystem):
             None.
 
         """
+        spawning.refresh_spawn_weights(self) # As in the sequential version.
+
         if self.time == 0:
             # print("rank, num_agents:", self.mpi.rank, len(self.agents))
 
diff --git a/flee/spawning.py b/flee/spawning.py
index 448c884..5d30499 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -316,6 +316,9 @@ def spawn_daily_displaced(e, t, d):
       elif __refugee_debt > 0:
         __refugee_debt = 0
 
+      # Weights depend on the time (conflict decay) and on the remaining populations.
+      refresh_spawn_weights(e)
+
       #Insert refugee agents
       locs = e.pick_spawn_locations(new_refs)
       for i in range(0, new_refs):
-- 
2.43.0


From ee775cfa35a7b90533a1884bd55ed31b104d7187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 18/55] fix: agent and link logs work without agents on day 0
 and with region granularity, and are closed after each step

---
 flee/Diagnostics.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/flee/Diagnostics.py b/flee/Diagnostics.py
index 8cef636..de32c34 100644
--- a/flee/Diagnostics.py
+++ b/flee/Diagnostics.py
@@ -46,6 +46,23 @@ def print_attribute_values(a):
     return out
 
 
+def get_region_name(l):
+    """
+    Summary:
+        Get the region name of a location or a link.
+        For links, this is the combination of the regions of both endpoints.
+
+    Args:
+        l (Location or Link): A location or a link.
+
+    Returns:
+        str: The region name.
+    """
+    if hasattr(l, "startpoint"):
+        return "L:{}:{}".format(l.startpoint.region, l.endpoint.region)
+    return l.region
+
+
 @check_args_type
 def write_agents_par(
     rank: int, agents, time: int, max_written: int = -1, timestep_interval: int = 1
@@ -71,7 +88,9 @@ def write_agents_par(
         my_file = open("agents.out.%s" % rank, "w", encoding="utf-8")
         print(
             "#time,rank-agentid,original_location,current_location,gps_x,gps_y,is_travelling,distance_travelled,"
-            "places_travelled,distance_moved_this_timestep,{}".format(print_attribute_keys(agents[0])),
+            "places_travelled,distance_moved_this_timestep,{}".format(
+                print_attribute_keys(agents[0]) if len(agents) > 0 else ""
+            ),
             file=my_file,
         )
     else:
@@ -92,7 +111,7 @@ def write_agents_par(
             y = a.location.y
 
             if SimulationSettings.log_levels["granularity"] == "region":
-                loc_name = location.region
+                loc_name = get_region_name(a.location)
                 x = 0.0
                 y = 0.0
 
@@ -122,7 +141,7 @@ def write_agents_par(
                         x = l.x
                         y = l.y
                         if SimulationSettings.log_levels["granularity"] == "region":
-                            loc_name = l.region
+                            loc_name = get_region_name(l)
                             x = 0.0
                             y = 0.0
 
@@ -151,7 +170,7 @@ def write_agents_par(
                         x = l.x
                         y = l.y
                         if SimulationSettings.log_levels["granularity"] == "region":
-                            loc_name = l.region
+                            loc_name = get_region_name(l)
                             x = 0.0
                             y = 0.0
 
@@ -173,6 +192,8 @@ def write_agents_par(
                             file=my_file,
                         )
 
+    my_file.close()
+
 
 @check_args_type
 def write_agents(agents, time: int, max_written: int = -1, timestep_interval: int = 1) -> None:
@@ -284,6 +305,8 @@ def write_links_par(
                                 file=my_file,
                                 )
 
+    my_file.close()
+
 
 @check_args_type
 def write_links(locations, time: int, timestep_interval: int = 1) -> None:
-- 
2.43.0


From 755c08baeaf7916bdf28f0a310698fd0917a3620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 19/55] fix: agents, locations and links no longer share
 attribute dictionaries

---
 flee/flee.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index c47b3f0..b629024 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -73,7 +73,7 @@ class Person:
         # current link.
         self.distance_travelled_on_link = 0
 
-        self.attributes=attributes
+        self.attributes = dict(attributes)
         self.route = []
 
         if SimulationSettings.log_levels["agent"] > 0:
@@ -357,7 +357,7 @@ class Location:
         self.time_of_conflict = -1 # Time that a major conflict event last took place.
         self.numAgentsSpawned = 0
 
-        self.attributes = attributes # This will store a range of attributes that are read from file.
+        self.attributes = dict(attributes) # This will store a range of attributes that are read from file.
 
         if location_type is not None:
             if "camp" in location_type.lower():
@@ -684,7 +684,7 @@ class Link:
         # if True, then all Persons will go down this link.
         self.forced_redirection = forced_redirection
 
-        self.attributes = attributes
+        self.attributes = dict(attributes)
 
 
     @check_args_type
-- 
2.43.0


From 2c7f22522c7cbd4a12d8f5079dbd9ca3cfd96893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:15 +0000
Subject: [PATCH 20/55] fix: demographics and displacement totals are kept per
 simulation, and demographics are loaded in a fixed order

---
 flee/spawning.py | 56 +++++++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 5d30499..05ce220 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -14,10 +14,20 @@ else:
         return func
 
 
-__refugees_raw = 0
-__refugee_debt = 0
+def _get_demographics(e):
+    """
+    Summary:
+        Returns the demographics tables that are loaded for an ecosystem.
 
-__demographics = {}
+    Args:
+        e (Ecosystem): Ecosystem object
+
+    Returns:
+        Dict: Dictionary of attribute names and demographics tables.
+    """
+    if not hasattr(e, "demographics"):
+        e.demographics = {}
+    return e.demographics
 
 
 def getAttributeRatio(location, attr_name):
@@ -108,7 +118,7 @@ def read_demographic_csv(e, csvname):
   if SimulationSettings.log_levels["init"] > -1:
     print("INFO: ", attribute, " attributes loaded, with columns:", df.columns, file=sys.stderr)
   
-  __demographics[attribute] = df
+  _get_demographics(e)[attribute] = df
 
 
 def read_demographics(e):
@@ -131,7 +141,8 @@ def read_demographics(e):
   if not os.path.exists("input_csv"):
       return
 
-  csv_list = glob.glob(os.path.join("input_csv","demographics_*.csv"))
+  # Sorted, so that attributes are sampled in the same order on any file system.
+  csv_list = sorted(glob.glob(os.path.join("input_csv","demographics_*.csv")))
 
   for csvname in csv_list:
       read_demographic_csv(e, csvname)
@@ -151,13 +162,12 @@ def draw_sample(e, loc, attribute):
   Returns:
       float: Sample from the attribute distribution.
   """
-  #print(__demographics[attribute], file=sys.stderr)
-  #print(__demographics[attribute].iloc[0]['Default'], file=sys.stderr)
-  if attribute in __demographics:
-    if loc.name in __demographics[attribute].columns:
-      a = __demographics[attribute].sample(n=1,weights=loc.name)
+  demographics = _get_demographics(e)
+  if attribute in demographics:
+    if loc.name in demographics[attribute].columns:
+      a = demographics[attribute].sample(n=1,weights=loc.name)
     else:
-      a = __demographics[attribute].sample(n=1,weights='Default')
+      a = demographics[attribute].sample(n=1,weights='Default')
   else:
     return -1
 
@@ -177,7 +187,7 @@ def draw_samples(e,loc):
         Dict: Dictionary of attribute names and values.
     """
     samples = {}
-    for a in __demographics.keys():
+    for a in _get_demographics(e).keys():
         samples[a] = draw_sample(e, loc, a)
     return samples
 
@@ -195,9 +205,8 @@ def add_initial_refugees(e, d, loc):
   Returns:
       None.
   """
-  global __demographics
   # Only initialize demographics when first called.
-  if len(__demographics) == 0:
+  if len(_get_demographics(e)) == 0:
       read_demographics(e)
 
   if SimulationSettings.spawn_rules["EmptyCampsOnDay0"] is True:
@@ -231,7 +240,10 @@ def spawn_daily_displaced(e, t, d):
         Tuple[int, int, int]: Tuple containing the number of new agents, 
         the raw refugee count, and the refugee debt.
     """
-    global __refugees_raw, __refugee_debt
+    # The running totals belong to the simulation, not to the Python process.
+    if not hasattr(e, "refugees_raw"):
+        e.refugees_raw = 0
+        e.refugee_debt = 0
 
     new_refs = 0
 
@@ -294,14 +306,14 @@ def spawn_daily_displaced(e, t, d):
     else:
 
       # Determine number of new refugees to insert into the system.
-      new_refs = d.get_daily_difference(t, FullInterpolation=True, SumFromCamps=SumFromCamps) - __refugee_debt
-      __refugees_raw += d.get_daily_difference(t, FullInterpolation=True, SumFromCamps=SumFromCamps)
+      new_refs = d.get_daily_difference(t, FullInterpolation=True, SumFromCamps=SumFromCamps) - e.refugee_debt
+      e.refugees_raw += d.get_daily_difference(t, FullInterpolation=True, SumFromCamps=SumFromCamps)
 
       #Refugees are pre-placed in Mali, so set new_refs to 0 on Day 0.
       if SimulationSettings.spawn_rules["InsertDayZeroRefugeesInCamps"]:
         if t == 0:
           new_refs = 0
-          #__refugees_raw = 0
+          #e.refugees_raw = 0
 
           for l in e.locations:
               #print(l.name, l.capacity, d.day0pops.get(l.name,0),  file=sys.stderr)
@@ -311,10 +323,10 @@ def spawn_daily_displaced(e, t, d):
 
 
       if new_refs < 0:
-        __refugee_debt = -new_refs
+        e.refugee_debt = -new_refs
         new_refs = 0
-      elif __refugee_debt > 0:
-        __refugee_debt = 0
+      elif e.refugee_debt > 0:
+        e.refugee_debt = 0
 
       # Weights depend on the time (conflict decay) and on the remaining populations.
       refresh_spawn_weights(e)
@@ -325,7 +337,7 @@ def spawn_daily_displaced(e, t, d):
         attributes = draw_samples(e, locs[i])
         e.addAgent(location=locs[i], attributes=attributes) # Parallelization is incorporated *inside* the addAgent function.
 
-    return new_refs, __refugees_raw, __refugee_debt
+    return new_refs, e.refugees_raw, e.refugee_debt
 
 
 def spawn_agents(e, number):
-- 
2.43.0


From 3f0e910174bf80ad9a86caebc3d6bf829febf5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 21/55] fix: arrival statistics of parallel runs cover the
 agents of all processes

---
 flee/flee.py  | 17 +++++++++++++++++
 flee/pflee.py | 17 +++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/flee/flee.py b/flee/flee.py
index b629024..e83ccbe 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -846,6 +846,21 @@ class Ecosystem:
         return vertices, edges
 
 
+    def _sum_arrivals(self, arrival_total, num_arrivals):
+        """
+        Summary:
+            Adds up the arrivals of all processes. There is only one in serial Flee.
+
+        Args:
+            arrival_total (float): sum of the journey lengths of today's arrivals.
+            num_arrivals (int): number of today's arrivals.
+
+        Returns:
+            Tuple: both values, summed over all processes.
+        """
+        return arrival_total, num_arrivals
+
+
     @check_args_type
     def _aggregate_arrivals(self) -> None:
         """
@@ -869,6 +884,8 @@ class Ecosystem:
                     tmp_num_arrivals += len(loc.incoming_journey_lengths)
                     loc.incoming_journey_lengths = []
 
+            arrival_total, tmp_num_arrivals = self._sum_arrivals(arrival_total, tmp_num_arrivals)
+
             self.num_arrivals += [tmp_num_arrivals]
 
             if tmp_num_arrivals > 0:
diff --git a/flee/pflee.py b/flee/pflee.py
index fd3b645..ce003bf 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -810,6 +810,23 @@ class Ecosystem(flee.Ecosystem):
             print("end of synchronize_locations", file=sys.stderr)
 
 
+    def _sum_arrivals(self, arrival_total, num_arrivals):
+        """
+        Summary:
+            Adds up the arrivals of all processes.
+
+        Args:
+            arrival_total (float): sum of the journey lengths of today's arrivals on this process.
+            num_arrivals (int): number of today's arrivals on this process.
+
+        Returns:
+            Tuple: both values, summed over all processes.
+        """
+        local = np.array([arrival_total, num_arrivals], dtype="i")
+        totals = self.mpi.CalcCommWorldTotal(local)
+        return int(totals[0]), int(totals[1])
+
+
     @check_args_type
     def evolve(self) -> None:
         """
-- 
2.43.0


From 7b77ab330822e38f5fb9cd3846fe7ebf919c3a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 22/55] fix: read the documented camps_are_sinks setting

---
 flee/SimulationSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/SimulationSettings.py b/flee/SimulationSettings.py
index ba12563..2c3890a 100644
--- a/flee/SimulationSettings.py
+++ b/flee/SimulationSettings.py
@@ -143,7 +143,7 @@ class SimulationSettings:
             print("NOTE: conflict_zone_spawning_only is enabled by default, and needs to be disabled when you define flood_zone_spawning_only to be true.", file=sys.stderr)
             sys.exit()
 
-        SimulationSettings.spawn_rules["camps_are_sinks"] = bool(fetchss(dps, "camps_are_sicks", False)) # Camps can deactivate agents.
+        SimulationSettings.spawn_rules["camps_are_sinks"] = bool(fetchss(dps, "camps_are_sinks", fetchss(dps, "camps_are_sicks", False))) # Camps can deactivate agents.
         SimulationSettings.spawn_rules["read_from_agents_csv_file"] = bool(fetchss(dps, "read_from_agents_csv_file", False)) # Load agents from agents.csv file.
 
         SimulationSettings.spawn_rules["sum_from_camps"] = bool(fetchss(dps, "sum_from_camps", True)) #Sum total migrant numbers from camp data numbers, instead of from refugees.csv.
-- 
2.43.0


From 0e26776322bc3b37ec8f7ab383834d6e1c8c119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 23/55] fix: routes with forced_redirection 1 are created only
 once

---
 flee/InputGeography.py       | 2 +-
 flee/micro_InputGeography.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index bfdbe6e..4ebc612 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -534,7 +534,7 @@ class InputGeography:
                         forced_redirection=True,
                         attributes=attributes,
                     )
-                if int(l3) == 2:
+                elif int(l3) == 2:
                     e.linkUp(
                         endpoint1=link[1],
                         endpoint2=link[0],
diff --git a/flee/micro_InputGeography.py b/flee/micro_InputGeography.py
index e351c96..7a96aeb 100644
--- a/flee/micro_InputGeography.py
+++ b/flee/micro_InputGeography.py
@@ -159,7 +159,7 @@ class InputGeography(based_InputGeography_class):
                         forced_redirection=True,
                         link_type=str(link[4]),
                     )
-                if int(link[3]) == 2:
+                elif int(link[3]) == 2:
                     e.linkUp(
                         endpoint1=link[1],
                         endpoint2=link[0],
-- 
2.43.0


From 5cec0ee6d992eef8f9c1b7d6bf73f4fab388fd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 24/55] fix: conflict zones and dates are taken from the
 columns documented for locations.csv

---
 flee/InputGeography.py       |  9 +++++----
 flee/micro_InputGeography.py | 28 ++++++++++++++++++----------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 4ebc612..e4a0c74 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -124,7 +124,7 @@ class InputGeography:
         if len(SimulationSettings.ConflictInputFile) == 0:
             conflict_names = []
             for loc in self.locations:
-                if "conflict" in loc[4].lower():
+                if "conflict" in loc[5].lower():
                     conflict_names += [loc[0]]
             print(conflict_names, file=sys.stderr)
             return conflict_names
@@ -658,12 +658,13 @@ class InputGeography:
 
         elif len(SimulationSettings.ConflictInputFile) == 0:
             for loc in self.locations:
-                if "conflict" in loc[4].lower() and int(loc[5]) == time:
-                    conflict_intensity = 1.0
+                if "conflict" in loc[5].lower() and int(loc[6]) == time:
+                    i = e._convert_location_name_to_index(name=loc[0])
+                    conflict_intensity = float(e.locations[i].attributes.get("conflict_intensity", 1.0))
                     if e.print_location_output:
                         print(
                             "Time = {}. Adding a new conflict zone [{}] with pop. {} and intensity {}".format(
-                                time, loc[0], int(loc[1]), conflict_intensity
+                                time, loc[0], e.locations[i].pop, conflict_intensity
                             ),
                             file=sys.stderr,
                         )
diff --git a/flee/micro_InputGeography.py b/flee/micro_InputGeography.py
index 7a96aeb..77e2b76 100644
--- a/flee/micro_InputGeography.py
+++ b/flee/micro_InputGeography.py
@@ -109,30 +109,37 @@ class InputGeography(based_InputGeography_class):
             name = loc[0]
 
             # if population field is empty, just set it to 0.
-            if len(loc[1]) < 1:
+            if len(loc[7]) < 1:
                 population = 0
             else:
-                population = int(loc[1]) // SimulationSettings.optimisations["PopulationScaleDownFactor"]
+                population = int(loc[7]) // SimulationSettings.optimisations["PopulationScaleDownFactor"]
 
-            x = float(loc[2]) if len(loc[2]) > 0 else 0.0
-            y = float(loc[3]) if len(loc[3]) > 0 else 0.0
+            x = float(loc[3]) if len(loc[3]) > 0 else 0.0
+            y = float(loc[4]) if len(loc[4]) > 0 else 0.0
 
-            # if population field is empty, just set it to 0.
-            if len(loc[7]) < 1:
+            # if region field is empty, just set it to unknown.
+            if len(loc[1]) < 1:
+                region = "unknown"
+            else:
+                region = loc[1]
+
+            # if country field is empty, just set it to unknown.
+            if len(loc[2]) < 1:
                 country = "unknown"
             else:
-                country = loc[7]
+                country = loc[2]
 
             # print(loc, file=sys.stderr)
-            location_type = loc[4]
+            location_type = loc[5]
             if "conflict" in location_type.lower():
                 num_conflict_zones += 1
-                if int(loc[5]) > 0:
+                if int(loc[6]) > 0:
                     location_type = "town"
 
-            if "camp" in loc[4].lower():
+            if "camp" in loc[5].lower():
                 lm[name] = e.addLocation(
                     name=name,
+                    region=region,
                     location_type=location_type,
                     capacity=population,
                     x=x,
@@ -142,6 +149,7 @@ class InputGeography(based_InputGeography_class):
             else:
                 lm[name] = e.addLocation(
                     name=name,
+                    region=region,
                     location_type=location_type,
                     pop=population,
                     x=x,
-- 
2.43.0


From 4f65e12c528dec12b8cf72542a777003bd74a740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 25/55] fix: intensity changes of ongoing conflicts are applied

---
 flee/InputGeography.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index e4a0c74..5911898 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -3,6 +3,7 @@ import os
 import sys
 from typing import List
 
+from flee import spawning
 from flee.SimulationSettings import SimulationSettings
 
 if os.getenv("FLEE_TYPE_CHECK") is not None and os.environ["FLEE_TYPE_CHECK"].lower() == "true":
@@ -676,7 +677,7 @@ class InputGeography:
 
             for conflict_name in conflict_names:
                 if len(self.conflicts[conflict_name]) < (time - 1):
-                    print(f"Error: conflict value at time {time} requested, but the conflicts table for {conflict_name} only has values up to t = {len(conflicts[conflict_name])}.", file=sys.stderr)
+                    print(f"Error: conflict value at time {time} requested, but the conflicts table for {conflict_name} only has values up to t = {len(self.conflicts[conflict_name]) - 1}.", file=sys.stderr)
 
                 if Debug and e.getRankN(e.time) is True:
                     print("L:", conflict_name, self.conflicts[conflict_name], time, file=sys.stderr)
@@ -691,6 +692,10 @@ class InputGeography:
                                     file=sys.stderr,
                                 )
                             e.set_conflict_intensity(name=conflict_name, conflict_intensity=self.conflicts[conflict_name][time])
+                        elif self.conflicts[conflict_name][time] != self.conflicts[conflict_name][time - 1]:
+                            # Ongoing conflict with a new intensity (the conflict start time stays the same).
+                            e.locations[e._convert_location_name_to_index(name=conflict_name)].conflict = self.conflicts[conflict_name][time]
+                            spawning.refresh_spawn_weights(e)
                     else:
                         if e.getRankN(e.time) is True:
                             print(
-- 
2.43.0


From e2e5eb4193da258bf99d6a412673323811c7ee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:31 +0000
Subject: [PATCH 26/55] fix: reading agents.csv no longer writes to the
 standard output, which holds the output table

---
 flee/InputGeography.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 5911898..4fed5a4 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -388,9 +388,7 @@ class InputGeography:
                     pass
                 elif i == 0:
                     headers = row[1:]
-                    print(headers)
                 else:
-                    print(row)
                     attr = {}
                     for i in range (1, len(row)):
                         attr[headers[i-1]] = row[i]
@@ -402,7 +400,7 @@ class InputGeography:
                             loc_found= True
 
                     if not loc_found:
-                        print("could not map location to CSV-loaded agent on line. (not count commented lines or empty lines)", sys.stderr)
+                        print("could not map location to CSV-loaded agent on line. (not count commented lines or empty lines)", file=sys.stderr)
                 i += 1
 
 
-- 
2.43.0


From a141d5b0e9c115b14f01ba16d2d67c525f63cde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 27/55] fix: coupling files only become visible to the other
 model when they are complete

---
 flee/coupling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 84a9f8a..f4cf010 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -458,8 +458,11 @@ class CouplingInterface:
         csv_outputfile_name = "{}[{}].{}.csv".format(self.outputfilename, self.instance_index, day)
         csv_outputfile_path = os.path.join(self.outputdir, "file", "coupled", csv_outputfile_name)
 
-        with open(csv_outputfile_path, "a", encoding="utf-8") as file:
+        # Readers wait for this file name to appear, so it is only given to the complete file.
+        tmp_outputfile_path = csv_outputfile_path + ".tmp"
+        with open(tmp_outputfile_path, "w", encoding="utf-8") as file:
             file.write(out_csv_string)
+        os.replace(tmp_outputfile_path, csv_outputfile_path)
 
         print(
             "{}[{}] t={} Couple: output written to {}".format(
-- 
2.43.0


From fc0ea39772aa877c9d1960a102a2bf1b07236099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:40 +0000
Subject: [PATCH 28/55] fix: coupling copes with locations that the other model
 does not report

---
 flee/coupling.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index f4cf010..25baede 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -351,12 +351,12 @@ class CouplingInterface:
                     # print(self.names, i, newAgents)
                     if "in" in self.directions[i]:
 
-                        print(
-                            "Couple IN: {} {}".format(self.names[i], newAgents[self.names[i]]),
-                            file=sys.stderr,
-                        )
-
                         if self.names[i] in newAgents:
+                            print(
+                                "Couple IN: {} {}".format(self.names[i], newAgents[self.names[i]]),
+                                file=sys.stderr,
+                            )
+
                             self.e.insertAgents(
                                 location=self.e.locations[self.location_ids[i]],
                                 number=newAgents[self.names[i]],
-- 
2.43.0


From 54131d1c0e5968b1cded9904316777a65f896c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:47 +0000
Subject: [PATCH 29/55] fix: exchange logs also work with the serial version of
 Flee

---
 flee/coupling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 25baede..2cc6071 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -639,7 +639,7 @@ class CouplingInterface:
             self.logTotalAgents = []
             # logTotalAgents.append([day,total_agents])
 
-        self.logTotalAgents.append([t, self.e.total_agents])
+        self.logTotalAgents.append([t, self.e.numAgents()])
 
         # save log of numAgents in locations
         if not hasattr(self, "logLocationsNumAgents"):
-- 
2.43.0


From 66deb6e323fc4b538d127737e9397bcec0e21cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:19 +0000
Subject: [PATCH 30/55] fix: the combined ensemble output holds the rounded
 means and the days

---
 flee/coupling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 2cc6071..51885bf 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -684,9 +684,9 @@ class CouplingInterface:
 
         for column_name in list(frame):
             if "error" not in column_name.lower():
-                frame[column_name].round(0).astype(int)
+                frame[column_name] = frame[column_name].round(0).astype(int)
 
-        df.to_csv(os.path.join(dirInputFiles, "out.csv"), encoding="utf-8", index=False)
+        frame.to_csv(os.path.join(dirInputFiles, "out.csv"), encoding="utf-8")
 
     # ------------------------------------------------------------------------
     #                           Plotting functions
-- 
2.43.0


From cc71f24ab76f0e8dab719018644097f32de8de3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 31/55] fix: run_par.py prints the IDP total column name in the
 header

---
 runscripts/run_par.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runscripts/run_par.py b/runscripts/run_par.py
index 751844c..72b9337 100644
--- a/runscripts/run_par.py
+++ b/runscripts/run_par.py
@@ -62,7 +62,7 @@ if __name__ == "__main__":
   output_header_string += "Total error,refugees in camps (UNHCR),total refugees (simulation),raw UNHCR refugee count,refugees in camps (simulation),refugee_debt"
 
   if SimulationSettings.log_levels["idp_totals"] > 0:
-      output += ",total IDPs".format(e.numIDPs())
+      output_header_string += ",total IDPs"
 
   if e.getRankN(0):
       print(output_header_string)
-- 
2.43.0


From 5af3c3cc8fccb889531804f26d540fc5830a04e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:31 +0000
Subject: [PATCH 32/55] fix: a location changed into a conflict zone starts its
 conflict on that day

---
 flee/flee.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flee/flee.py b/flee/flee.py
index e83ccbe..7a7b01e 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1411,6 +1411,7 @@ class Ecosystem:
         elif "conflict" in location_type.lower():
             l.movechance = SimulationSettings.move_rules["ConflictMoveChance"]
             l.conflict = float(l.attributes.get("conflict_intensity",1.0))
+            l.time_of_conflict = self.time
         elif "forward" in location_type.lower():
             l.movechance = 1.0
             l.forward = True
-- 
2.43.0


From c96aa7244a1b02e061d83aa1717ecf401d114052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:30 +0000
Subject: [PATCH 33/55] fix: with a capacity buffer of 1.0 a camp that holds
 exactly its capacity was not full

---
 flee/moving.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index 4e2bf1d..9534492 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -179,12 +179,12 @@ def getCapMultiplier(location, numOnLink: int) -> float:
     if cap < 1:
         return 1.0
 
-    if location.numAgents <= nearly_full_occ * cap:
-        return 1.0
-
     if location.numAgents >= 1.0 * cap:
         return 0.0
 
+    if location.numAgents <= nearly_full_occ * cap:
+        return 1.0
+
     # should be a number equal in range [0 to 0.1*self.numAgents].
     residual = location.numAgents - (nearly_full_occ * cap)
 
-- 
2.43.0


From d631b8345cef824b5737bedbb82daba8fd99616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:16 +0000
Subject: [PATCH 34/55] fix: age rules failed for agents read from agents.csv

---
 flee/moving.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index 9534492..ee0d969 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -38,11 +38,11 @@ def getEndPointScore(agent, endpoint, time) -> float:
 
     #["ChildrenAvoidHazards", "BoysTakeRisk", "MatchCampEthnicity", "MatchTownEthnicity", "MatchConflictEthnicity"]
     if SimulationSettings.move_rules["ChildrenAvoidHazards"]:
-        if agent.attributes["age"]<19:
+        if float(agent.attributes["age"])<19:
             # For children the safety of the destination is more important than for adults.
             base = base*base
         if SimulationSettings.move_rules["BoysTakeRisk"]:
-            if agent.attributes["gender"]=="male" and agent.attributes["age"]>14:
+            if agent.attributes["gender"]=="male" and float(agent.attributes["age"])>14:
                 # Hypothesis that perceived safety does not affect routing decisions for teenage boys.
                 base = 1 
 
-- 
2.43.0


From c4d12603be0c2005e1b346dcfb03d363aa129d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:05 +0000
Subject: [PATCH 35/55] fix: agents that use very many links in a day exceeded
 the recursion limit

---
 flee/flee.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 7a7b01e..c8da0e0 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -218,7 +218,8 @@ class Person:
         Returns:
             None.
         """
-        if self.travelling:
+        # One round for each link that the agent uses today.
+        while self.travelling:
 
             todays_travel_speed = float(self.location.attributes.get("max_move_speed", SimulationSettings.move_rules["MaxMoveSpeed"]))
 
@@ -287,7 +288,9 @@ class Person:
                             ) / 2.0 < 0.5:
                                 ForceTownMove = True
                         self.evolve(e, time=time, ForceTownMove=ForceTownMove)
-                        self.finish_travel(e, time=time)
+            else:
+                # The journey goes on tomorrow.
+                break
 
 
 class Location:
-- 
2.43.0


From cc422ce223725562c3d58ace62825b39e8453690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:57 +0000
Subject: [PATCH 36/55] fix: agents at locations that are only coupled inwards
 were lost in every exchange

---
 flee/coupling.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 51885bf..0c07c40 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -344,7 +344,14 @@ class CouplingInterface:
                 newAgents = self.readInputFromFile(t=time)
 
             if self.submodel in ["micro", "macro"]:
-                self.e.clearLocationsFromAgents(location_names=self.location_names)
+                # Agents only leave through locations that are coupled outwards.
+                self.e.clearLocationsFromAgents(
+                    location_names=[
+                        name
+                        for name, direction in zip(self.location_names, self.directions)
+                        if "out" in direction
+                    ]
+                )
                 for i in range(0, len(self.location_names)):
                     # write departing agents to file
                     # read incoming agents from file
-- 
2.43.0


From 782c25ee1460466156123070e3ba874360b272eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:05 +0000
Subject: [PATCH 37/55] fix: location scores of parallel simulations are kept
 per simulation

---
 flee/pflee.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index ce003bf..1663501 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -266,7 +266,7 @@ class Location(flee.Location):
         Returns:
             float: The score for the given index.
         """
-        return Ecosystem.scores[self.id * self.e.scores_per_location + index]
+        return self.e.scores[self.id * self.e.scores_per_location + index]
 
 
     @check_args_type
@@ -282,7 +282,7 @@ class Location(flee.Location):
         Returns:
             None.
         """
-        Ecosystem.scores[self.id * self.e.scores_per_location + index] = value
+        self.e.scores[self.id * self.e.scores_per_location + index] = value
 
     @check_args_type
     def updateAllScores(self, time: int) -> None:
@@ -370,7 +370,7 @@ class Link(flee.Link):
         Returns:
             float: The score of the link.
         """
-        return float(Ecosystem.scores[(self.endpoint.id * 2) + 1])
+        return float(self.startpoint.e.scores[(self.endpoint.id * 2) + 1])
 
 
 
@@ -378,11 +378,6 @@ class Ecosystem(flee.Ecosystem):
     """
     The Ecosystem class
     """
-    # single array holding all the location-related scores.
-    # made static, assuming Parallel Flee simulations only have a single ecosystem.
-    # (sequential Flee simulations have it non-static still).
-    scores = np.array([1.0, 1.0])
-
     @check_args_type
     def __init__(self):
         """
@@ -409,6 +404,8 @@ class Ecosystem(flee.Ecosystem):
 
         self.cur_loc_id = 0
         self.scores_per_location = 2
+        # single array holding all the location-related scores.
+        self.scores = np.array([1.0, 1.0])
 
         # Bring conflict zone management into FLEE.
         self.spawn_weights = np.array([])
@@ -781,11 +778,11 @@ class Ecosystem(flee.Ecosystem):
             None.
         """
 
-        base = int((len(Ecosystem.scores) / self.scores_per_location) / self.mpi.size)
-        leftover = int((len(Ecosystem.scores) / self.scores_per_location) % self.mpi.size)
+        base = int((len(self.scores) / self.scores_per_location) / self.mpi.size)
+        leftover = int((len(self.scores) / self.scores_per_location) % self.mpi.size)
 
         if Debug:
-            print("Sync Locs:", self.mpi.rank, base, leftover, len(Ecosystem.scores), file=sys.stderr)
+            print("Sync Locs:", self.mpi.rank, base, leftover, len(self.scores), file=sys.stderr)
 
         sizes = np.ones(self.mpi.size, dtype="i") * base
         sizes[:leftover] += 1
@@ -793,18 +790,18 @@ class Ecosystem(flee.Ecosystem):
         offsets = np.zeros(self.mpi.size, dtype="i")
         offsets[1:] = np.cumsum(sizes)[:-1]
 
-        assert np.sum(sizes) == len(Ecosystem.scores)
-        assert offsets[-1] + sizes[-1] == len(Ecosystem.scores)
+        assert np.sum(sizes) == len(self.scores)
+        assert offsets[-1] + sizes[-1] == len(self.scores)
 
         # Populate scores array
         scores_start = int(offsets[self.mpi.rank])
         local_scores_size = int(sizes[self.mpi.rank])
-        local_scores = Ecosystem.scores[scores_start : scores_start + local_scores_size].copy()
+        local_scores = self.scores[scores_start : scores_start + local_scores_size].copy()
 
         if Debug and self.mpi.rank == 0:
             print("start of synchronize_locations MPI call.", file=sys.stderr)
             # print(self.mpi.rank, local_scores, scores, sizes, offsets)
-        self.mpi.comm.Allgatherv(local_scores, [Ecosystem.scores, sizes, offsets, MPI.DOUBLE])
+        self.mpi.comm.Allgatherv(local_scores, [self.scores, sizes, offsets, MPI.DOUBLE])
 
         if Debug and self.mpi.rank == 0:
             print("end of synchronize_locations", file=sys.stderr)
@@ -988,8 +985,8 @@ class Ecosystem(flee.Ecosystem):
         # Enlarge the scores array in Ecosystem to reflect the new location.
         # Pflee only.
         if self.cur_loc_id > 0:
-            Ecosystem.scores = np.append(Ecosystem.scores, np.array([1.0, 1.0]))
-        # print(len(Ecosystem.scores))
+            self.scores = np.append(self.scores, np.array([1.0, 1.0]))
+        # print(len(self.scores))
 
         loc = Location(
             self,
-- 
2.43.0


From 4a61ce112211ff16c8e3beeedc021a1aead928c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:37 +0000
Subject: [PATCH 38/55] fix: run scripts report data totals, raw count and debt
 also on days without refugees in the data

---
 runscripts/run.py     | 2 +-
 runscripts/run_par.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/runscripts/run.py b/runscripts/run.py
index 99138f5..54d4c1e 100644
--- a/runscripts/run.py
+++ b/runscripts/run.py
@@ -112,7 +112,7 @@ if __name__ == "__main__":
     if refugees_raw>0:
       output += ",%s,%s,%s,%s,%s,%s" % (float(np.sum(abs_errors))/float(refugees_raw), int(sum(loc_data)), e.numAgents(), refugees_raw, refugees_in_camps_sim, refugee_debt)
     else:
-      output += ",0.0,0,{},0,{},0".format(e.numAgents(), refugees_in_camps_sim)
+      output += ",0.0,%s,%s,%s,%s,%s" % (int(sum(loc_data)), e.numAgents(), refugees_raw, refugees_in_camps_sim, refugee_debt)
 
     if SimulationSettings.log_levels["idp_totals"] > 0:
       output += ",{}".format(e.numIDPs())
diff --git a/runscripts/run_par.py b/runscripts/run_par.py
index 72b9337..72c0714 100644
--- a/runscripts/run_par.py
+++ b/runscripts/run_par.py
@@ -116,7 +116,7 @@ if __name__ == "__main__":
     if refugees_raw>0:
       output += ",%s,%s,%s,%s,%s,%s" % (float(np.sum(abs_errors))/float(refugees_raw), int(sum(loc_data)), e.numAgents(), refugees_raw, refugees_in_camps_sim, refugee_debt)
     else:
-      output += ",0.0,0,{},0,{},0".format(e.numAgents(), refugees_in_camps_sim)
+      output += ",0.0,%s,%s,%s,%s,%s" % (int(sum(loc_data)), e.numAgents(), refugees_raw, refugees_in_camps_sim, refugee_debt)
 
     if SimulationSettings.log_levels["idp_totals"] > 0:
       output += ",{}".format(e.numIDPs())
-- 
2.43.0


From 2c9f284ce30e9c85f61dc24a5260177c31e19801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:45 +0000
Subject: [PATCH 39/55] fix: both directions of a road in a micro model get its
 link type

---
 flee/pmicro_flee.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flee/pmicro_flee.py b/flee/pmicro_flee.py
index 82f1450..1e8fe9c 100644
--- a/flee/pmicro_flee.py
+++ b/flee/pmicro_flee.py
@@ -184,6 +184,7 @@ class Ecosystem(pflee.Ecosystem):
                 startpoint=self.locations[endpoint2_index],
                 endpoint=self.locations[endpoint1_index],
                 distance=distance,
+                link_type=link_type,
             )
         )
 
-- 
2.43.0


From 3cbdc63333cc394e41c921b142fe2b9b212b4c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:02 +0000
Subject: [PATCH 40/55] fix: stay_close_to_home weighs the distance to the
 agent's home, not to where it is

---
 flee/moving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index ee0d969..797a6d2 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -49,7 +49,7 @@ def getEndPointScore(agent, endpoint, time) -> float:
 
     if SimulationSettings.move_rules["StayCloseToHome"]:
         power_factor = SimulationSettings.move_rules["HomeDistancePower"]
-        base *= 1.0/(max(1.0,endpoint.calculateDistance(agent.location))**power_factor)
+        base *= 1.0/(max(1.0,endpoint.calculateDistance(agent.home_location))**power_factor)
 
     # DFlee Flood Location Weight implementation
     if SimulationSettings.move_rules["FloodRulesEnabled"] is True:
-- 
2.43.0


From 5839f5c8e6ac7b9dd263e4b7f67b6772e56a5e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:08 +0000
Subject: [PATCH 41/55] fix: use_pop_for_loc_weight weighs places by their
 population

---
 flee/moving.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index 797a6d2..75c044f 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -142,12 +142,12 @@ def getEndPointScore(agent, endpoint, time) -> float:
         if SimulationSettings.move_rules["MatchConflictEthnicity"]:
             base *= (spawning.getAttributeRatio(endpoint, agent.attributes["ethnicity"]) * 10.0)
         if SimulationSettings.move_rules["UsePopForLocWeight"]:
-            base *= min(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
+            base *= max(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
     else:
         if SimulationSettings.move_rules["MatchTownEthnicity"]:
             base *= (spawning.getAttributeRatio(endpoint, agent.attributes["ethnicity"]) * 10.0)
         if SimulationSettings.move_rules["UsePopForLocWeight"]:
-            base *= min(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
+            base *= max(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
 
     return base
 
-- 
2.43.0


From 1656cd1afc0921f24e64721b74cfa28772a8ee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:13 +0000
Subject: [PATCH 42/55] fix: the flood location weight of a flood zone is
 applied once, and not at flood level 0

---
 flee/scoring.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flee/scoring.py b/flee/scoring.py
index 33bb71d..e89f777 100644
--- a/flee/scoring.py
+++ b/flee/scoring.py
@@ -49,8 +49,9 @@ def updateLocationScore(time: int, loc) -> None:
         flood_level = loc.attributes.get("flood_level")
         
         if flood_level is not None:
-            score *= float(SimulationSettings.move_rules["FloodLocWeights"][flood_level])
-        
+            # The flood location weight itself is applied where the score is used,
+            # for all flooded locations alike.
+
             #Flooding Forecaster Location Score Implementation:
             if SimulationSettings.move_rules["FloodForecaster"] is True:
 
-- 
2.43.0


From 56f1b29e2e2af8750d558b2831b7c17e5e6b9632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:19 +0000
Subject: [PATCH 43/55] fix: a negative movechance_pop_scale_factor no longer
 divides by zero in places without population

---
 flee/moving.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index 75c044f..df44310 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -344,7 +344,13 @@ def calculateMoveChance(a, ForceTownMove: bool, time) -> float:
     else: # called first time in loop
         movechance = a.location.movechance
         # Population-based scaling
-        movechance *= (float(max(a.location.pop, a.location.capacity)) / SimulationSettings.move_rules["MovechancePopBase"])**SimulationSettings.move_rules["MovechancePopScaleFactor"]
+        scale_pop = float(max(a.location.pop, a.location.capacity))
+        scale_factor = SimulationSettings.move_rules["MovechancePopScaleFactor"]
+        if scale_pop > 0.0 or scale_factor >= 0.0:
+            movechance *= (scale_pop / SimulationSettings.move_rules["MovechancePopBase"])**scale_factor
+        elif movechance > 0.0:
+            # Limit for an empty place: a multiplier without bounds.
+            movechance = 1.0
 
     # DFlee Flood Location Movechance implementation:
     if SimulationSettings.move_rules["FloodRulesEnabled"] is True:
-- 
2.43.0


From c05fe8541420788db26b13055d5e796977d0bfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:02 +0000
Subject: [PATCH 44/55] fix: names of demographic attributes may contain
 underscores

---
 flee/spawning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 05ce220..5e59e6f 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -108,7 +108,7 @@ def read_demographic_csv(e, csvname):
   Returns:
         None.
   """
-  attribute = (csvname.split(os.sep)[1].split('.')[0]).split('_')[1]
+  attribute = (csvname.split(os.sep)[1].split('.')[0]).split('_', 1)[1]
 
   if not os.path.exists(csvname):
       return
-- 
2.43.0


From 7db80f85e60933b58efa457895e614646ab6b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:13 +0000
Subject: [PATCH 45/55] fix: refugees of day 0 that are in the simulation no
 longer count twice against the capacity of camps

---
 flee/spawning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 5e59e6f..d51d7d1 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -317,7 +317,9 @@ def spawn_daily_displaced(e, t, d):
 
           for l in e.locations:
               #print(l.name, l.capacity, d.day0pops.get(l.name,0),  file=sys.stderr)
-              if l.capacity > 0 :
+              # People that are in the camps on day 0 but not in the simulation take up capacity.
+              # (those that are in the simulation are counted by the location itself)
+              if l.capacity > 0 and SimulationSettings.spawn_rules["EmptyCampsOnDay0"] is True:
                   l.capacity -= int(float(d.day0pops.get(l.name,0)))
               #print(l.name, l.capacity, file=sys.stderr)
 
-- 
2.43.0


From a907a6a3774829243bfc07a6e6159fd56e3b0082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:21 +0000
Subject: [PATCH 46/55] fix: flood settings are read where the documentation
 places them

---
 flee/SimulationSettings.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flee/SimulationSettings.py b/flee/SimulationSettings.py
index 2c3890a..55e833e 100644
--- a/flee/SimulationSettings.py
+++ b/flee/SimulationSettings.py
@@ -190,7 +190,7 @@ class SimulationSettings:
 
             SimulationSettings.spawn_rules["flood_driven_spawning"] = True # Conflicts provide a direct push factor.
 
-            SimulationSettings.spawn_rules["flood_spawn_mode"] = fetchss(dpsc,"spawn_mode","pop_ratio") # constant, Poisson, pop_ratio
+            SimulationSettings.spawn_rules["flood_spawn_mode"] = fetchss(dpsc,"spawn_mode",fetchss(dpsc,"flood_spawn_mode","pop_ratio")) # constant, Poisson, pop_ratio
 
             if SimulationSettings.spawn_rules["flood_spawn_mode"] == "pop_ratio":
               SimulationSettings.spawn_rules["displaced_per_flood_day"] = fetchss(dpsc,"displaced_per_flood_day", [0.0,0.1,0.2,0.5,0.9]) #expect an array.
@@ -296,6 +296,9 @@ class SimulationSettings:
 
         # DFlee Flood Location Move rules
         dpf = fetchss(dpr, "flood_rules", None)
+        if dpf is None and SimulationSettings.move_rules["FloodRulesEnabled"] is True:
+          # The settings may also be placed in move_rules itself.
+          dpf = dpr
 
         if dpf is not None:
           SimulationSettings.move_rules["FloodRulesEnabled"] = True
-- 
2.43.0


From 49ebbbb6c5f1080e80c5ea50df87924b4a4113fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:14 +0000
Subject: [PATCH 47/55] fix: with empty camps on day 0 all data leave out the
 numbers of day 0, whatever was asked for before

---
 flee/datamanager/DataTable.py           | 41 +++++++++++++++----------
 flee/datamanager/handle_refugee_data.py |  6 ++--
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/flee/datamanager/DataTable.py b/flee/datamanager/DataTable.py
index c365430..844a06c 100644
--- a/flee/datamanager/DataTable.py
+++ b/flee/datamanager/DataTable.py
@@ -346,27 +346,20 @@ class DataTable:
             # ref_table = self.data_table[0]
 
             new_refugees = 0
-            self.day0pops["total"] = 0
 
             for i in self.header:
-                camp_pop = self.get_field(
+                camp_pop = self._get_full_field(
                     name=i, day=0, FullInterpolation=FullInterpolation
                 )
-                # This function is called multiple times, sometimes with 0 camp pop.
-                # So we make sure that the offset is indeed equal to the initial camp
-                # popi only once, and not set to 0 again.
-                if self.day0pops.get(i,0) == 0:
-                    self.day0pops[i] = camp_pop
+                self.day0pops[i] = camp_pop
 
                 if SumFromCamps is True:
                     new_refugees += camp_pop
-                    self.day0pops["total"] += camp_pop
 
             if SumFromCamps is False:
-                new_refugees = self.get_field(
+                new_refugees = self._get_full_field(
                     name="total", day=0, FullInterpolation=FullInterpolation
                 )
-                self.day0pops["total"] = new_refugees
 
             # Don't have new refugees on Day 0 if we start empty
             new_refugees *= (1 - self.start_empty)
@@ -492,9 +485,9 @@ class DataTable:
         sys.exit("Error: can't find the header %s in the header list" % (name))
 
     @check_args_type
-    def get_field(self, name: str, day: int, FullInterpolation=True) -> int:
+    def _get_full_field(self, name: str, day: int, FullInterpolation=True) -> int:
         """
-        Gets in a given named column for a given day. Interpolates between days if needed.
+        Gets in a given named column for a given day, including those present on Day 0.
 
         Args:
             name (str): Description
@@ -505,12 +498,28 @@ class DataTable:
             int: Description
         """
         i = self._find_headerindex(name=name)
-
         if FullInterpolation:
-            # print(name, day, self.day0pops.get(name,0), self.start_empty, file=sys.stderr)
-            return self.get_interpolated_data(column=i, day=day) - (self.day0pops.get(name,0) * self.start_empty)
+            return self.get_interpolated_data(column=i, day=day)
+        return self.get_raw_data(column=i, day=day)
+
+    @check_args_type
+    def get_field(self, name: str, day: int, FullInterpolation=True) -> int:
+        """
+        Gets in a given named column for a given day. Interpolates between days if needed.
 
-        return self.get_raw_data(column=i, day=day) - (self.day0pops.get(name,0) * self.start_empty)
+        Args:
+            name (str): Description
+            day (int): Description
+            FullInterpolation (bool, optional): Description
+
+        Returns:
+            int: Description
+        """
+        value = self._get_full_field(name, day, FullInterpolation)
+        if self.start_empty:
+            # leave out those who are already there on Day 0.
+            value -= self._get_full_field(name, 0, FullInterpolation)
+        return value
 
     @check_args_type
     def print_data_values_for_location(self, name: str, last_day: int) -> None:
diff --git a/flee/datamanager/handle_refugee_data.py b/flee/datamanager/handle_refugee_data.py
index bda8141..fb40843 100644
--- a/flee/datamanager/handle_refugee_data.py
+++ b/flee/datamanager/handle_refugee_data.py
@@ -75,13 +75,13 @@ class RefugeeTable(DataTable.DataTable):
             if int(ref_table[i][0]) == int(days):
                 # then scale all previous entries by ref_table[i][1]/ref_table[i-1][1]
                 if i > 0:
-                    first_level_2_value = ref_table[i, 1] + self.day0pops.get(name, 0)
-                    last_level_1_value = ref_table[i - 1, 1] + self.day0pops.get(name, 0)
+                    first_level_2_value = ref_table[i, 1]
+                    last_level_1_value = ref_table[i - 1, 1]
 
                     if last_level_1_value < 1:
                         print("Error in correctLevel1Registrations: last level 1 value is less than 1.", file=sys.stderr)
                         print(f"Name: {name}, date: {date} (Day {days})", file=sys.stderr)
-                        print(f"Last level 1 value: {last_level_1_value} Last data value: {ref_table[i - 1, 1]} Day0Pop: {self.day0pops.get(name, 0)}", file=sys.stderr)
+                        print(f"Last level 1 value: {last_level_1_value}", file=sys.stderr)
                         sys.exit()
                     # print(days, i, ref_table[0:i,1])
                     ref_table[0:i, 1] *= first_level_2_value / last_level_1_value
-- 
2.43.0


From 40aeb1ee36b469bebb059985361ac81622e5d710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:18 +0000
Subject: [PATCH 48/55] fix: level-1 corrections on the first date of the data
 no longer fail

---
 flee/datamanager/handle_refugee_data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flee/datamanager/handle_refugee_data.py b/flee/datamanager/handle_refugee_data.py
index fb40843..d834f89 100644
--- a/flee/datamanager/handle_refugee_data.py
+++ b/flee/datamanager/handle_refugee_data.py
@@ -73,6 +73,10 @@ class RefugeeTable(DataTable.DataTable):
 
         for i in range(0, len(ref_table)):
             if int(ref_table[i][0]) == int(days):
+                if i == 0:
+                    # There are no previous entries to scale.
+                    return 1.0
+
                 # then scale all previous entries by ref_table[i][1]/ref_table[i-1][1]
                 if i > 0:
                     first_level_2_value = ref_table[i, 1]
-- 
2.43.0


From 3b37dbd61b4d6536acf74d47c6902fafe8638255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:10 +0000
Subject: [PATCH 49/55] fix: data columns made of files with different dates
 lost data or failed

---
 flee/datamanager/DataTable.py | 37 +++++++++++++++--------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/flee/datamanager/DataTable.py b/flee/datamanager/DataTable.py
index 844a06c..de5b6c3 100644
--- a/flee/datamanager/DataTable.py
+++ b/flee/datamanager/DataTable.py
@@ -130,32 +130,27 @@ def AddCSVTables(table1: np.ndarray, table2: np.ndarray) -> np.ndarray:
     table = np.zeros([0, 2])
 
     offset = 0
-    last_c2 = np.zeros(([1, 2]))
+    # Before its first entry, table 2 counts with the first one.
+    last_c2 = table2[0]
     for c2 in table2:
 
         # If table 2 date value is higher, then keep adding entries from table
         # 1
-        while c2[0] > table1[offset][0]:
+        while offset < len(table1) and c2[0] > table1[offset][0]:
             table = np.vstack([table, [table1[offset][0], last_c2[1] + table1[offset][1]]])
-            if offset < len(table1) - 1:
-                offset += 1
-            else:
-                break
-
-        # If the two match, add a total.
-        if c2[0] == table1[offset][0]:
-            table = np.vstack([table, [c2[0], c2[1] + table1[offset][1]]])
-            if offset < len(table1) - 1:
-                offset += 1
-            last_c2 = c2
-            continue
-
-        # If table 1 value is higher, add an aggregate entry, and go to the
-        # next iteration without increasing the offset.
-        if c2[0] < table1[offset][0]:
-            table = np.vstack([table, [c2[0], c2[1] + table1[offset][1]]])
-            last_c2 = c2
-            continue
+            offset += 1
+
+        # Add a total. If table 1 has no entry for this date, then its next
+        # entry is used (or its last one, when there are no further entries).
+        c1 = table1[min(offset, len(table1) - 1)]
+        table = np.vstack([table, [c2[0], c2[1] + c1[1]]])
+        if offset < len(table1) and c2[0] == c1[0]:
+            offset += 1
+        last_c2 = c2
+
+    # Add the entries of table 1 that are later than all those of table 2.
+    for c1 in table1[offset:]:
+        table = np.vstack([table, [c1[0], last_c2[1] + c1[1]]])
 
     return table
 
-- 
2.43.0


From e157436be903c22ef56cb831ee17d6cf3181d757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:25 +0000
Subject: [PATCH 50/55] fix: fixed routes counted markers as steps, so places
 behind a marker were out of reach

---
 flee/crawling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flee/crawling.py b/flee/crawling.py
index 21778ba..3491470 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -144,6 +144,9 @@ def calculateLocCrawlLinkWeight(
 
       _addLocationRoute(source_loc, loc, link, prior_distance, origin_names, time, major=False)
 
+  else:
+      step -= 1
+
   if SimulationSettings.move_rules["AwarenessLevel"] > step:
       # Traverse the tree one step further.
       for lel in link.endpoint.links:
-- 
2.43.0


From 22d2e43cae642f5cb8d0907d8f4cd2c7c39012df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:31 +0000
Subject: [PATCH 51/55] fix: with fixed routes agents that lost their route at
 a marker stayed there for ever

---
 flee/crawling.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index 3491470..58ebb44 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -259,9 +259,6 @@ def generateLocationRoutes(l, time: int, debug: bool = False):
   Returns:
       int: Index of the chosen route
   """
-  if l.marker:
-      return {}
-
   l.routes = {}
 
   # Agents pick a random adjacent location in this case, so no routes are needed.
-- 
2.43.0


From 93a373cd35aefc88aa2d173f4219335e9ffbb4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:37 +0000
Subject: [PATCH 52/55] fix: with fixed routes nearly full and full places were
 as attractive as empty ones

---
 flee/moving.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index df44310..c54e573 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -502,7 +502,9 @@ def selectRoute(a, time: int, debug: bool = False, return_all_routes: bool = Fal
 
   if SimulationSettings.move_rules["FixedRoutes"] is True:
       for l in a.location.routes.keys():
-          weights = weights + [a.location.routes[l][0] * getEndPointScore(a, a.location.routes[l][2], time)]
+          endpoint = a.location.routes[l][2]
+          cap_multiplier = getCapMultiplier(endpoint, numOnLink=0)**SimulationSettings.move_rules["WeightPower"]
+          weights = weights + [a.location.routes[l][0] * getEndPointScore(a, endpoint, time) * cap_multiplier]
           routes = routes + [a.location.routes[l][1]]
       #print("FixedRoute Weights", a.location.name, weights, routes, file=sys.stderr)
   else:
-- 
2.43.0


From 3cd868195c6434c153c58c7e4d6aca6469c477ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:05 +0000
Subject: [PATCH 53/55] fix: skip comments, blank lines and padding in
 major_routes.csv

---
 flee/InputGeography.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 4fed5a4..e715a8e 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -269,8 +269,10 @@ class InputGeography:
         with open(csv_name, newline="", encoding="utf-8") as csvfile:
             values = csv.reader(csvfile)
             for row in values:
+                # Spreadsheets pad shorter rows with empty fields.
+                row = [x for x in row if x]
                 if len(row) == 0 or row[0][0] == "#":
-                    pass
+                    continue
                 self.major_routes.append(row)
 
 
-- 
2.43.0


From 4a035ad155b0e8aee87a1679e2a1da73e883bcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:41 +0000
Subject: [PATCH 54/55] fix: plotting exchange logs with a single exchange
 failed

---
 flee/coupling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 0c07c40..fbc6c87 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -924,7 +924,7 @@ class CouplingInterface:
 
         for fname in inputFileNames:
             with open(os.path.join(dirInputFiles, fname), "rb") as csvfile:
-                data = np.loadtxt(csvfile, delimiter=",", skiprows=1)
+                data = np.loadtxt(csvfile, delimiter=",", skiprows=1, ndmin=2)
 
                 # keep day column for plotting purpose
                 if len(days) == 0:
-- 
2.43.0


From 99a1b471cfa2f5b2f164ce469079291f5c2040e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:46 +0000
Subject: [PATCH 55/55] fix: exchange logs only become visible to other
 instances when they are complete

---
 flee/coupling.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index fbc6c87..8986849 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -572,10 +572,12 @@ class CouplingInterface:
             )
             # output csv header
             header_csv = "day,total_agents"
-            with open(outputfile, "a", encoding="utf-8") as file:
+            # Other instances wait for this file name to appear, so it is only given to the complete file.
+            with open(outputfile + ".tmp", "w", encoding="utf-8") as file:
                 file.write("{}\n".format(header_csv))
                 csvWriter = csv.writer(file, delimiter=",")
                 csvWriter.writerows(self.logTotalAgents)
+            os.replace(outputfile + ".tmp", outputfile)
 
         # save logLocationsNumAgents to file
         if hasattr(self, "logLocationsNumAgents"):
@@ -590,10 +592,12 @@ class CouplingInterface:
                 if "out" in self.directions[i]:
                     header_csv += ",{}".format(self.names[i])
 
-            with open(outputfile, "a", encoding="utf-8") as file:
+            # Other instances wait for this file name to appear, so it is only given to the complete file.
+            with open(outputfile + ".tmp", "w", encoding="utf-8") as file:
                 file.write("{}\n".format(header_csv))
                 csvWriter = csv.writer(file, delimiter=",")
                 csvWriter.writerows(self.logLocationsNumAgents)
+            os.replace(outputfile + ".tmp", outputfile)
 
         # save logNewRefugees to file
         if hasattr(self, "logNewRefugees"):
@@ -603,10 +607,12 @@ class CouplingInterface:
             )
             # output csv header
             header_csv = "day,new_refs"
-            with open(outputfile, "a", encoding="utf-8") as file:
+            # Other instances wait for this file name to appear, so it is only given to the complete file.
+            with open(outputfile + ".tmp", "w", encoding="utf-8") as file:
                 file.write("{}\n".format(header_csv))
                 csvWriter = csv.writer(file, delimiter=",")
                 csvWriter.writerows(self.logNewRefugees)
+            os.replace(outputfile + ".tmp", outputfile)
 
 
     @check_args_type
-- 
2.43.0

