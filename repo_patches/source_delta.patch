From 2700d74df1f2c91ee3c5574ff3dfe59556dba48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:53 +0000
Subject: [PATCH 01/69] fix: compare link endpoint names by value when closing
 or reopening links

---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index c78e94c..5aa6151 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -985,7 +985,7 @@ class Ecosystem:
         removed = False
 
         for i in range(0, len(self.locations[x].links)):
-            if self.locations[x].links[i].endpoint.name is not endpoint:
+            if self.locations[x].links[i].endpoint.name != endpoint:
                 new_links += [self.locations[x].links[i]]
                 continue
 
@@ -1039,7 +1039,7 @@ class Ecosystem:
         #       )
 
         for i in range(0, len(self.locations[x].closed_links)):
-            if self.locations[x].closed_links[i].endpoint.name is not endpoint:
+            if self.locations[x].closed_links[i].endpoint.name != endpoint:
                 # print("[{}] to [{}] ({})".format(
                 #     startpoint,
                 #     self.locations[x].closed_links[i].endpoint.name,
-- 
2.43.0


From da2d30c6b6fead39cca6b10b7aa7313ffed061bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:53 +0000
Subject: [PATCH 02/69] fix: two-way link removal, closure and reopening act on
 both directions

---
 flee/flee.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 5aa6151..e097364 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1086,14 +1086,15 @@ class Ecosystem:
         Returns:
             bool: Description
         """
+        removed = self._remove_link_1way(
+            startpoint=startpoint, endpoint=endpoint, close_only=close_only
+        )
         if twoway:
-            return self._remove_link_1way(
+            removed = self._remove_link_1way(
                 startpoint=endpoint, endpoint=startpoint, close_only=close_only
-            )
+            ) or removed
 
-        return self._remove_link_1way(
-            startpoint=startpoint, endpoint=endpoint, close_only=close_only
-        )
+        return removed
 
 
     @check_args_type
@@ -1111,10 +1112,11 @@ class Ecosystem:
         Returns:
             bool: Description
         """
+        reopened = self._reopen_link_1way(startpoint=startpoint, endpoint=endpoint)
         if twoway:
-            return self._reopen_link_1way(startpoint=endpoint, endpoint=startpoint)
+            reopened = self._reopen_link_1way(startpoint=endpoint, endpoint=startpoint) or reopened
 
-        return self._reopen_link_1way(startpoint=startpoint, endpoint=endpoint)
+        return reopened
 
 
     @check_args_type
-- 
2.43.0


From 747853fc5a31894267b2e7c996efdee938c06a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:53 +0000
Subject: [PATCH 03/69] fix: operations on an unknown location name no longer
 act on the first location

---
 flee/flee.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index e097364..5fafa5a 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -958,8 +958,8 @@ class Ecosystem:
         #         x = i
 
         if x < 0:
-            print("#Warning: location not found in remove_link", file=sys.stderr)
-            return False
+            print("#Warning: location not found: {}".format(name), file=sys.stderr)
+            return -1
 
         return x
 
@@ -983,6 +983,8 @@ class Ecosystem:
         new_links = []
         x = self._convert_location_name_to_index(name=startpoint)
         removed = False
+        if x < 0:
+            return False
 
         for i in range(0, len(self.locations[x].links)):
             if self.locations[x].links[i].endpoint.name != endpoint:
@@ -1031,6 +1033,8 @@ class Ecosystem:
         new_closed_links = []
         x = self._convert_location_name_to_index(name=startpoint)
         reopened = False
+        if x < 0:
+            return False
         # print("Reopening link from {} to {}, "
         #       "closed link list length = {}.".format(
         #           startpoint, endpoint,
@@ -1373,7 +1377,10 @@ class Ecosystem:
         Returns:
             None.
         """     
-        self.locations[self._convert_location_name_to_index(location_name)].close_camp(IDP)
+        index = self._convert_location_name_to_index(location_name)
+        if index < 0:
+            return
+        self.locations[index].close_camp(IDP)
         print("Time = {}. Close camp {}, IDP: {}.".format(self.time, location_name, IDP), file=sys.stderr)
 
 
@@ -1391,7 +1398,10 @@ class Ecosystem:
             None.
         """
 
-        l = self.locations[self._convert_location_name_to_index(location_name)]
+        index = self._convert_location_name_to_index(location_name)
+        if index < 0:
+            return
+        l = self.locations[index]
 
         l.town = False
         l.camp = False
@@ -1447,7 +1457,10 @@ class Ecosystem:
         Returns:
             None.
         """
-        self.locations[self._convert_location_name_to_index(location_name)].open_camp(IDP)
+        index = self._convert_location_name_to_index(location_name)
+        if index < 0:
+            return
+        self.locations[index].open_camp(IDP)
         print("Time = {}. Open camp {}, IDP: {}.".format(self.time, location_name, IDP), file=sys.stderr)
 
 
@@ -1466,6 +1479,8 @@ class Ecosystem:
             None.
         """
         id1 = self._convert_location_name_to_index(loc1_name)
+        if id1 < 0:
+            return
         for i in range(0, len(self.locations[id1].links)):
             if self.locations[id1].links[i].endpoint.name == loc2_name:
                 old_val = self.locations[id1].links[i].forced_redirection
-- 
2.43.0


From 910cac88174aac95c68d2c25e46a79f367ca7a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:53 +0000
Subject: [PATCH 04/69] fix: location closures and reopenings terminate and
 cover every link in the requested direction

---
 flee/flee.py | 72 +++++++++++++++-------------------------------------
 1 file changed, 20 insertions(+), 52 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 5fafa5a..f491543 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1181,63 +1181,31 @@ class Ecosystem:
             if self.locationNames[i] == location_name:
                 changed_anything = True
 
-                link_set = self.locations[i].links
                 if mode == "reopen":
-                    link_set = self.locations[i].closed_links
-
-                j = 0
-                while j < len(link_set):
+                    link_lists = [loc.closed_links for loc in self.locations]
+                    change_link = self.reopen_link
+                else:
+                    link_lists = [loc.links for loc in self.locations]
+                    change_link = self.close_link
+
+                # Collect the affected links up front, as changing them
+                # modifies the link lists.
+                pairs = []
+                for x, link_list in enumerate(link_lists):
+                    for link in link_list:
+                        incoming = link.endpoint.name == location_name and dir_mode % 2 == 0
+                        outgoing = x == i and dir_mode > 0
+                        pair = (self.locationNames[x], link.endpoint.name)
+                        if (incoming or outgoing) and pair not in pairs:
+                            pairs.append(pair)
+
+                for startpoint, endpoint in pairs:
                     if Debug:
                         print(
-                            "starting to {} link "
-                            "[{}] [{}] in direction {}".format(
-                                mode, location_name, link_set[j].endpoint.name, direction
-                            ),
+                            "starting to {} link [{}] [{}]".format(mode, startpoint, endpoint),
                             file=sys.stderr,
                         )
-                    if mode == "close":
-
-                        if dir_mode % 2 == 0:
-                            self.close_link(
-                                startpoint=link_set[j].endpoint.name,
-                                endpoint=self.locationNames[i],
-                                twoway=False,
-                            )
-
-                        if dir_mode > 0:
-                            if self.close_link(
-                                startpoint=self.locationNames[i],
-                                endpoint=link_set[j].endpoint.name,
-                                twoway=False,
-                            ):
-                                # shrink the link list. # This operation
-                                # affects the overall loop, so no major
-                                # operations should take place after this.
-                                link_set = self.locations[i].links
-                        else:
-                            j += 1
-
-                    elif mode == "reopen":
-
-                        if dir_mode % 2 == 0:
-                            self.reopen_link(
-                                startpoint=link_set[j].endpoint.name,
-                                endpoint=self.locationNames[i],
-                                twoway=False,
-                            )
-
-                        if dir_mode > 0:
-                            if self.reopen_link(
-                                startpoint=self.locationNames[i],
-                                endpoint=link_set[j].endpoint.name,
-                                twoway=False,
-                            ):
-                                # shrink the closed link list. # This operation
-                                # affects the overall loop, so no major
-                                # operations should take place after this.
-                                link_set = self.locations[i].closed_links
-                            else:
-                                j += 1
+                    change_link(startpoint=startpoint, endpoint=endpoint, twoway=False)
 
         return changed_anything
 
-- 
2.43.0


From a55d33df42bba5de5605e65e389cbe6eac3661f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:53 +0000
Subject: [PATCH 05/69] fix: closed links keep counting agents underway, who
 notice when the link reopens

---
 flee/flee.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index f491543..e2c61f0 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1,6 +1,5 @@
 from __future__ import annotations, print_function
 
-import copy
 import os
 import random
 import math
@@ -996,15 +995,9 @@ class Ecosystem:
                 #       file=sys.stderr
                 #       )
                 self.locations[x].links[i].closed = True
-                # we copy the route link to have a backup.
-                self.locations[x].closed_links += [copy.copy(self.locations[x].links[i])]
-                # The original object might still be used by agents as part of
-                # finish_travel, but will be orphaned eventually.
-
-                # make sure agent counts are set to 0.
-                self.locations[x].closed_links[-1].numAgents = 0
-                # ditto.
-                self.locations[x].closed_links[-1].numAgentsOnRank = 0
+                # The same link object is kept, so that agents that are still
+                # underway remain counted and notice when it is reopened.
+                self.locations[x].closed_links += [self.locations[x].links[i]]
             removed = True
 
         self.locations[x].links = new_links
-- 
2.43.0


From 2472adf8d19d4b778a4d52db6529fc9329defa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:18 +0000
Subject: [PATCH 06/69] fix: clearing locations from agents keeps the agents
 elsewhere

---
 flee/flee.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index e2c61f0..78defb5 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1803,8 +1803,11 @@ class Ecosystem:
         """
         new_agents = []
         for i in range(0, len(self.agents)):
-            if self.agents[i].location.name not in location_names:
-                new_agents += self.agents[i]  # agent is preserved in ecosystem
+            if (
+                self.agents[i].location is None
+                or self.agents[i].location.name not in location_names
+            ):
+                new_agents.append(self.agents[i])  # agent is preserved in ecosystem
             else:
                 # agent is removed from the ecosystem and number of agents
                 # drops by one.
-- 
2.43.0


From b4d977baa7c05c7078dd1d1f9fea28436649447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:18 +0000
Subject: [PATCH 07/69] fix: agents with awareness level 0 pick one of the
 adjacent links

---
 flee/moving.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index 41fbd30..cf7e9df 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -485,7 +485,9 @@ def selectRoute(a, time: int, debug: bool = False, return_all_routes: bool = Fal
 
   if SimulationSettings.move_rules["AwarenessLevel"] == 0:
       linklen = len(a.location.links)
-      return [np.random.randint(0, linklen)]
+      if linklen == 0:
+          return None
+      return [a.location.links[np.random.randint(0, linklen)].endpoint.name]
 
   if SimulationSettings.move_rules["FixedRoutes"] is True:
       for l in a.location.routes.keys():
-- 
2.43.0


From d408119796b7d771eeffcdbf9f12428018af15c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:18 +0000
Subject: [PATCH 08/69] fix: agents without any available route stay where they
 are

---
 flee/flee.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flee/flee.py b/flee/flee.py
index 78defb5..a8fbb13 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -189,6 +189,13 @@ class Person:
                     # Determine which route to take
                     self.route = moving.selectRoute(self, time=time)
 
+                    if self.route is None:
+                        self.route = []
+
+                # No routes are available, so the agent stays.
+                if len(self.route) == 0:
+                    return
+
                 # Attempt to follow route. Return None if fail.  
                 chosenDest = self.take_next_step(e)
 
-- 
2.43.0


From 3d0c993d806c4b339dc08b34bad28fa81afd01bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:18 +0000
Subject: [PATCH 09/69] fix: route pruning keeps weights and routes paired

---
 flee/moving.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index cf7e9df..c80f7c6 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -457,8 +457,8 @@ def pruneRoutes(weights, routes):
     i = 0
     while i < len(weights):
         if weights[i] < min_weight_threshold:
-            weights.remove(weights[i])
-            routes.remove(routes[i])
+            del weights[i]
+            del routes[i]
             i -= 1
         i += 1
 
-- 
2.43.0


From bd2200e50108086d0d17b14c5fdc1395cbdc5730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:18 +0000
Subject: [PATCH 10/69] fix: moving.py imports the spawning module it uses

---
 flee/moving.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flee/moving.py b/flee/moving.py
index c80f7c6..ba45761 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -4,6 +4,7 @@ import numpy as np
 import random
 from beartype.typing import List, Optional, Tuple
 from flee.SimulationSettings import SimulationSettings
+import flee.spawning as spawning
 
 if os.getenv("FLEE_TYPE_CHECK") is not None and os.environ["FLEE_TYPE_CHECK"].lower() == "true":
     from beartype import beartype as check_args_type
-- 
2.43.0


From 41bfc3bdb15c564e630aec64699817619330933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:18 +0000
Subject: [PATCH 11/69] fix: location weights scale with population when
 use_pop_for_loc_weight is set

---
 flee/moving.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index ba45761..e9e8b69 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -142,12 +142,12 @@ def getEndPointScore(agent, endpoint, time) -> float:
         if SimulationSettings.move_rules["MatchConflictEthnicity"]:
             base *= (spawning.getAttributeRatio(endpoint, agent.attributes["ethnicity"]) * 10.0)
         if SimulationSettings.move_rules["UsePopForLocWeight"]:
-            base *= min(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
+            base *= max(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
     else:
         if SimulationSettings.move_rules["MatchTownEthnicity"]:
             base *= (spawning.getAttributeRatio(endpoint, agent.attributes["ethnicity"]) * 10.0)
         if SimulationSettings.move_rules["UsePopForLocWeight"]:
-            base *= min(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
+            base *= max(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
 
     return base
 
-- 
2.43.0


From 807ed3dc86926a78c83b9d57a04e424434bb1a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:18 +0000
Subject: [PATCH 12/69] fix: stay_close_to_home uses the distance to the home
 location

---
 flee/moving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index e9e8b69..f72892f 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -49,7 +49,7 @@ def getEndPointScore(agent, endpoint, time) -> float:
 
     if SimulationSettings.move_rules["StayCloseToHome"]:
         power_factor = SimulationSettings.move_rules["HomeDistancePower"]
-        base *= 1.0/(max(1.0,endpoint.calculateDistance(agent.location))**power_factor)
+        base *= 1.0/(max(1.0,endpoint.calculateDistance(agent.home_location))**power_factor)
 
     # DFlee Flood Location Weight implementation
     if SimulationSettings.move_rules["FloodRulesEnabled"] is True:
-- 
2.43.0


From cb87fb195876b32eac76fccdc2d7f092f0fb88af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:56 +0000
Subject: [PATCH 13/69] fix: pruning an empty list of routes does not fail

---
 flee/moving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index f72892f..dc8a684 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -450,7 +450,7 @@ def pruneRoutes(weights, routes):
     #check_routes(weights, routes, "START")
 
     threshold = SimulationSettings.move_rules["PruningThreshold"]
-    if threshold < 1.001:
+    if threshold < 1.001 or len(weights) == 0:
         #check_routes(weights, routes, "LOTHRESHOLD")
         return weights, routes
 
-- 
2.43.0


From fcdc6c9f618b2a640262937f2115f57e856bb01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:21 +0000
Subject: [PATCH 14/69] fix: agent logs can be written when there are no agents

---
 flee/Diagnostics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flee/Diagnostics.py b/flee/Diagnostics.py
index 8cef636..e9eadcf 100644
--- a/flee/Diagnostics.py
+++ b/flee/Diagnostics.py
@@ -71,7 +71,9 @@ def write_agents_par(
         my_file = open("agents.out.%s" % rank, "w", encoding="utf-8")
         print(
             "#time,rank-agentid,original_location,current_location,gps_x,gps_y,is_travelling,distance_travelled,"
-            "places_travelled,distance_moved_this_timestep,{}".format(print_attribute_keys(agents[0])),
+            "places_travelled,distance_moved_this_timestep,{}".format(
+                print_attribute_keys(agents[0]) if len(agents) > 0 else ""
+            ),
             file=my_file,
         )
     else:
-- 
2.43.0


From 24f7c19bac089fc8789340a1efd08d2a6c339fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:33 +0000
Subject: [PATCH 15/69] fix: agent logs with region granularity can be written

---
 flee/Diagnostics.py | 2 +-
 flee/flee.py        | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/flee/Diagnostics.py b/flee/Diagnostics.py
index e9eadcf..34546d4 100644
--- a/flee/Diagnostics.py
+++ b/flee/Diagnostics.py
@@ -94,7 +94,7 @@ def write_agents_par(
             y = a.location.y
 
             if SimulationSettings.log_levels["granularity"] == "region":
-                loc_name = location.region
+                loc_name = a.location.region
                 x = 0.0
                 y = 0.0
 
diff --git a/flee/flee.py b/flee/flee.py
index a8fbb13..f97876d 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -671,6 +671,7 @@ class Link:
         # links for now always connect two endpoints
         self.startpoint = startpoint
         self.endpoint = endpoint
+        self.region = "L:{}:{}".format(startpoint.region, endpoint.region)
         self.x = (self.startpoint.x + self.endpoint.x) / 2.0
         self.y = (self.startpoint.y + self.endpoint.y) / 2.0
 
-- 
2.43.0


From 0209e3c31f109ff7b78df6d3ab6255f893c23b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 16/69] fix: capacity limits also apply when routes are
 location-generated

---
 flee/moving.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index dc8a684..e9a065a 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -492,7 +492,10 @@ def selectRoute(a, time: int, debug: bool = False, return_all_routes: bool = Fal
 
   if SimulationSettings.move_rules["FixedRoutes"] is True:
       for l in a.location.routes.keys():
-          weights = weights + [a.location.routes[l][0] * getEndPointScore(a, a.location.routes[l][2], time)]
+          endpoint = a.location.routes[l][2]
+          weights = weights + [
+              a.location.routes[l][0] * getEndPointScore(a, endpoint, time) * getCapMultiplier(endpoint, 0)
+          ]
           routes = routes + [a.location.routes[l][1]]
       #print("FixedRoute Weights", a.location.name, weights, routes, file=sys.stderr)
   else:
-- 
2.43.0


From b33cda9ed3867a73548d16dd7c51245b2c6e21f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:28 +0000
Subject: [PATCH 17/69] fix: a location can be changed into a conflict zone

---
 flee/flee.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index f97876d..1b02abc 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1388,7 +1388,8 @@ class Ecosystem:
                     l.movechance = SimulationSettings.move_rules["IDPCampMoveChance"]
         elif "conflict" in location_type.lower():
             l.movechance = SimulationSettings.move_rules["ConflictMoveChance"]
-            l.conflict = float(self.attributes.get("conflict_intensity",1.0))
+            l.conflict = float(l.attributes.get("conflict_intensity",1.0))
+            l.time_of_conflict = self.time
         elif "forward" in location_type.lower():
             l.movechance = 1.0
             l.forward = True
@@ -1406,10 +1407,12 @@ class Ecosystem:
         else:
             print(
                 "Error in creating Location() object: cannot parse location_type value of"
-                " {} for location object with name {}".format(location_type, name),
+                " {} for location object with name {}".format(location_type, location_name),
                 file=sys.stderr
             )
 
+        spawning.refresh_spawn_weights(self)
+
         print(f"Time = {self.time}. Location {location_name} changed type to {location_type}.", file=sys.stderr)
 
 
-- 
2.43.0


From 5abfbd257e8e035259a51a67d44f2f9d7a06109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:32 +0000
Subject: [PATCH 18/69] fix: opening a regular camp clears the IDP camp flag

---
 flee/flee.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flee/flee.py b/flee/flee.py
index 1b02abc..8de54fc 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -464,6 +464,7 @@ class Location:
         self.forward = False
         self.marker = False
         self.flood_zone = False
+        self.idpcamp = False
         if IDP:
             self.idpcamp = True
             self.movechance = SimulationSettings.move_rules["IDPCampMoveChance"]
-- 
2.43.0


From 91f3c2ee379df701202ec43395842cc48dfa4e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 19/69] fix: conflict zones can be added without changing the
 move chance

---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 8de54fc..cadb476 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1526,8 +1526,8 @@ class Ecosystem:
             if self.locationNames[i] == name:
                 if change_movechance:
                     self.locations[i].movechance = SimulationSettings.move_rules["ConflictMoveChance"]
-                    self.locations[i].conflict = conflict_intensity
-                    self.locations[i].town = False
+                self.locations[i].conflict = conflict_intensity
+                self.locations[i].town = False
 
                 self.locations[i].time_of_conflict = self.time                  
                 spawning.refresh_spawn_weights(self)
-- 
2.43.0


From 47db4df961e870d58bc7f50018962591412b2195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:40 +0000
Subject: [PATCH 20/69] fix: a location that becomes a conflict zone loses its
 previous type

---
 flee/flee.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flee/flee.py b/flee/flee.py
index cadb476..3423e64 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1528,6 +1528,11 @@ class Ecosystem:
                     self.locations[i].movechance = SimulationSettings.move_rules["ConflictMoveChance"]
                 self.locations[i].conflict = conflict_intensity
                 self.locations[i].town = False
+                self.locations[i].camp = False
+                self.locations[i].idpcamp = False
+                self.locations[i].forward = False
+                self.locations[i].marker = False
+                self.locations[i].flood_zone = False
 
                 self.locations[i].time_of_conflict = self.time                  
                 spawning.refresh_spawn_weights(self)
-- 
2.43.0


From fc6874887dc070b821d1aec46020671b3c484c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 21/69] fix: SetCampMoveChance reads the move rules

---
 flee/flee.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/flee.py b/flee/flee.py
index 3423e64..13e3c57 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -608,7 +608,7 @@ class Location:
             None.
 
         """
-        self.movechance = SimulationSettings.CampMoveChance
+        self.movechance = SimulationSettings.move_rules["CampMoveChance"]
 
 
     @check_args_type
-- 
2.43.0


From af7f17780c6422bcda88214215b63e3bc0d0096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:17 +0000
Subject: [PATCH 22/69] fix: major routes compete with the routes of the
 location they are added to

---
 flee/crawling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index c1f2d30..859958b 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -72,7 +72,7 @@ def _addLocationRoute(
     weight = weight**SimulationSettings.move_rules["WeightPower"]
 
     #print("Adding loc route:", origin_names[1:], link.endpoint.name, file=sys.stderr)
-    if weight > loc.routes.get(link.endpoint.name, [0,None])[0]:
+    if weight > source_loc.routes.get(link.endpoint.name, [0,None])[0]:
         source_loc.routes[link.endpoint.name] = [weight, origin_names[1:] + [link.endpoint.name], link.endpoint]
 
 
-- 
2.43.0


From 09345e957eac749fdf2cb7dbfaf75926d167d9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:21 +0000
Subject: [PATCH 23/69] fix: marker locations do not count as a step in
 location-generated routes

---
 flee/crawling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flee/crawling.py b/flee/crawling.py
index 859958b..36c7abc 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -143,6 +143,9 @@ def calculateLocCrawlLinkWeight(
   if link.endpoint.marker is False:
 
       _addLocationRoute(source_loc, loc, link, prior_distance, origin_names, time, major=False)
+  else:
+      # Markers do not count as a step towards the awareness level.
+      step -= 1
 
   if SimulationSettings.move_rules["AwarenessLevel"] > step:
       # Traverse the tree one step further.
-- 
2.43.0


From 1c29c532ec4d7c16f84cdb682295aa28a741189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 24/69] fix: fixed routes can be combined with awareness level
 0

---
 flee/crawling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index 36c7abc..eefeeb9 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -265,8 +265,8 @@ def generateLocationRoutes(l, time: int, debug: bool = False):
   l.routes = {}
 
   if SimulationSettings.move_rules["AwarenessLevel"] == 0:
-    linklen = len(l.links)
-    return [np.random.randint(0, linklen)]
+    # Agents pick an adjacent link themselves, see moving.selectRoute.
+    return l.routes
 
   for k, e in enumerate(l.links):
     calculateLocCrawlLinkWeight(
-- 
2.43.0


From 5f7d2c0d354ce3ef653d4356e9cd22b094d22a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:32 +0000
Subject: [PATCH 25/69] fix: location routes are generated from up-to-date
 scores of all locations

---
 flee/flee.py    |  6 ++++++
 flee/pflee.py   | 13 +++++--------
 flee/scoring.py |  5 -----
 3 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 13e3c57..60c88b1 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -12,6 +12,7 @@ from flee.SimulationSettings import SimulationSettings
 import flee.moving as moving
 import flee.spawning as spawning
 import flee.scoring as scoring
+import flee.crawling as crawling
 
 if os.getenv("FLEE_TYPE_CHECK") is not None and os.environ["FLEE_TYPE_CHECK"].lower() == "true":
     from beartype import beartype as check_args_type
@@ -1641,6 +1642,11 @@ class Ecosystem:
             loc.routes = {}
             scoring.updateLocationScore(self.time, loc)
 
+        # generate location routes, once all location scores are up to date.
+        if SimulationSettings.move_rules["FixedRoutes"] is True:
+            for loc in self.locations:
+                crawling.generateLocationRoutes(loc, self.time)
+
         # update agent locations
         for a in self.agents:
             if SimulationSettings.log_levels["agent"] > 1:
diff --git a/flee/pflee.py b/flee/pflee.py
index 23c1b19..8727d3e 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -828,14 +828,11 @@ class Ecosystem(flee.Ecosystem):
                 start_loc_local=offset, end_loc_local=offset + num_locs_on_this_rank
             )
 
-            # Ensure Location Routes are updated on all cores for now.
-            if SimulationSettings.move_rules["FixedRoutes"] is True:
-                for i in range(len(self.locations)):
-                    loc = self.locations[i]
-                    if len(loc.routes) == 0:
-                        #print("INFO: Generating location routes.", file=sys.stderr)
-                        crawling.generateLocationRoutes(loc, self.time)
-
+        # Ensure Location Routes are updated on all cores for now, once all
+        # location scores are up to date.
+        if SimulationSettings.move_rules["FixedRoutes"] is True:
+            for loc in self.locations:
+                crawling.generateLocationRoutes(loc, self.time)
 
         # SYNCHRONIZE SPAWN COUNTS IN LOCATIONS (needed for all versions).
         spawn_counts = np.zeros(len(self.locations), dtype="i")
diff --git a/flee/scoring.py b/flee/scoring.py
index 9d745f7..33bb71d 100644
--- a/flee/scoring.py
+++ b/flee/scoring.py
@@ -1,5 +1,4 @@
 from flee.SimulationSettings import SimulationSettings
-from flee import crawling
 import numpy as np
 import os
 
@@ -124,7 +123,3 @@ def updateLocationScore(time: int, loc) -> None:
     loc.setScore(1, score)
     # print(time, loc.name,loc.camp,loc.foreign,loc.scores)
 
-    if SimulationSettings.move_rules["FixedRoutes"] is True:
-        #print("INFO: Generating location routes.", file=sys.stderr)
-        crawling.generateLocationRoutes(loc, time)
-
-- 
2.43.0


From ac4332bdcc9e4f572a2198bd721f40e754ba9288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:48 +0000
Subject: [PATCH 26/69] fix: forced redirection can be changed on a link that
 is closed at the time

---
 flee/flee.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 60c88b1..24ebb72 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1455,10 +1455,10 @@ class Ecosystem:
         id1 = self._convert_location_name_to_index(loc1_name)
         if id1 < 0:
             return
-        for i in range(0, len(self.locations[id1].links)):
-            if self.locations[id1].links[i].endpoint.name == loc2_name:
-                old_val = self.locations[id1].links[i].forced_redirection
-                self.locations[id1].links[i].forced_redirection = value
+        for link in self.locations[id1].links + self.locations[id1].closed_links:
+            if link.endpoint.name == loc2_name:
+                old_val = link.forced_redirection
+                link.forced_redirection = value
                 print("Time = {}. Redirection {}-{} changed from {} to {}.".format(self.time, loc1_name, loc2_name, old_val, value), file=sys.stderr)
 
 
-- 
2.43.0


From e5ef93fe59910dedcfd3ee6d4117112d6dbc5bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:56 +0000
Subject: [PATCH 27/69] fix: conflict zones dated in locations.csv become
 active on their date

---
 flee/InputGeography.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index bfdbe6e..2092751 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -124,7 +124,7 @@ class InputGeography:
         if len(SimulationSettings.ConflictInputFile) == 0:
             conflict_names = []
             for loc in self.locations:
-                if "conflict" in loc[4].lower():
+                if "conflict" in loc[5].lower():
                     conflict_names += [loc[0]]
             print(conflict_names, file=sys.stderr)
             return conflict_names
@@ -658,12 +658,15 @@ class InputGeography:
 
         elif len(SimulationSettings.ConflictInputFile) == 0:
             for loc in self.locations:
-                if "conflict" in loc[4].lower() and int(loc[5]) == time:
+                # Locations with conflict date 0 have been created as conflict zones.
+                if "conflict" in loc[5].lower() and int(loc[6]) == time and time > 0:
                     conflict_intensity = 1.0
+                    if len(loc) > 8 and "conflict_intensity" in self.columns:
+                        conflict_intensity = float(loc[self.columns.index("conflict_intensity")])
                     if e.print_location_output:
                         print(
                             "Time = {}. Adding a new conflict zone [{}] with pop. {} and intensity {}".format(
-                                time, loc[0], int(loc[1]), conflict_intensity
+                                time, loc[0], loc[7], conflict_intensity
                             ),
                             file=sys.stderr,
                         )
-- 
2.43.0


From 2c03558208ce46e6c69786ae7d9b0b84cc6e81af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:01 +0000
Subject: [PATCH 28/69] fix: changes of conflict intensity in conflicts.csv are
 applied

---
 flee/InputGeography.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 2092751..14e1f94 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -3,6 +3,7 @@ import os
 import sys
 from typing import List
 
+import flee.spawning as spawning
 from flee.SimulationSettings import SimulationSettings
 
 if os.getenv("FLEE_TYPE_CHECK") is not None and os.environ["FLEE_TYPE_CHECK"].lower() == "true":
@@ -693,6 +694,12 @@ class InputGeography:
                                     file=sys.stderr,
                                 )
                             e.set_conflict_intensity(name=conflict_name, conflict_intensity=self.conflicts[conflict_name][time])
+                        elif self.conflicts[conflict_name][time] != self.conflicts[conflict_name][time - 1]:
+                            # The conflict continues, with a different intensity.
+                            for loc in e.locations:
+                                if loc.name == conflict_name and loc.conflict > 0.0:
+                                    loc.conflict = self.conflicts[conflict_name][time]
+                            spawning.refresh_spawn_weights(e)
                     else:
                         if e.getRankN(e.time) is True:
                             print(
-- 
2.43.0


From e54fd1ce740b1f93d9f0a1157bf18b756626fe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:04 +0000
Subject: [PATCH 29/69] fix: conflicts.csv overrides locations.csv on day zero

---
 flee/InputGeography.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 14e1f94..c718a19 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -709,8 +709,14 @@ class InputGeography:
                                 file=sys.stderr,
                             )
                         e.add_conflict_zone(name=conflict_name, conflict_intensity=self.conflicts[conflict_name][time])
-                if self.conflicts[conflict_name][time] < 0.000001 and time > 0:
-                    if self.conflicts[conflict_name][time - 1] >= 0.000001:
+                if self.conflicts[conflict_name][time] < 0.000001:
+                    if time > 0:
+                        remove_zone = self.conflicts[conflict_name][time - 1] >= 0.000001
+                    else:
+                        # Locations may have been created as conflict zone.
+                        remove_zone = any(loc.name == conflict_name and loc.conflict > 0.0 for loc in e.locations)
+
+                    if remove_zone:
                         if e.getRankN(e.time) is True:
                             print(
                                 "Time = {}. Removing conflict zone [{}]".format(time, conflict_name),
-- 
2.43.0


From 77326418c08fea37788505b71006a6fe50974d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:38 +0000
Subject: [PATCH 30/69] fix: spawn locations are picked using up-to-date
 weights, and zero can be picked at any time

---
 flee/flee.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flee/flee.py b/flee/flee.py
index 24ebb72..67c0444 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1612,6 +1612,11 @@ class Ecosystem:
         Returns:
             list[Location]: A list of unique locations.
         """
+        if number < 1:
+            return []
+
+        # Populations, conflicts or the time may have changed since the last refresh.
+        spawning.refresh_spawn_weights(self)
         spawn_weight_total = sum(self.spawn_weights)
 
         assert spawn_weight_total > 0
-- 
2.43.0


From 172292c10ac8bb0e2abf36bcb11ac6697f348be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:28 +0000
Subject: [PATCH 31/69] fix: spawn_agents picks its locations with
 pick_spawn_locations

---
 flee/spawning.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 512f11a..990c81f 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -338,8 +338,7 @@ def spawn_agents(e, number):
         None.
     """
     #Insert refugee agents
-    for i in range(0, number):
-        loc = e.pick_spawn_location()
+    for loc in e.pick_spawn_locations(number):
         attributes = draw_samples(e, loc)
         e.addAgent(location=loc, attributes=attributes) # Parallelization is incorporated *inside* the addAgent function.
 
-- 
2.43.0


From 4d6c4c31f96003e1b380146e0770f61b2c4e8bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:58 +0000
Subject: [PATCH 32/69] fix: parallel addAgent can take the last resident, and
 spawn totals count each agent once

---
 flee/pflee.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index 8727d3e..1a8991d 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -616,9 +616,11 @@ class Ecosystem(flee.Ecosystem):
             None.
         """
         if SimulationSettings.spawn_rules["TakeFromPopulation"]:
-            if location.pop > 1: 
+            if location.pop > 0:
                 location.pop -= 1
-                location.numAgentsSpawnedOnRank += 1
+                # The new agent (see below) lives on one process only.
+                if (self.total_agents + 1) % self.mpi.size == self.mpi.rank:
+                    location.numAgentsSpawnedOnRank += 1
                 location.numAgentsSpawned += 1
             else:
                 print(
@@ -626,7 +628,7 @@ class Ecosystem(flee.Ecosystem):
                     "population of the conflict zones. Please amend locations.csv." 
                 )
                 location.print()
-                assert location.pop > 1
+                assert location.pop > 0
         self.total_agents += 1
         if self.total_agents % self.mpi.size == self.mpi.rank:
             self.agents.append(Person(self, location=location, attributes=attributes))
-- 
2.43.0


From 9f35d59f3a36c509ac4ac9669c951664046f68b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:43 +0000
Subject: [PATCH 33/69] fix: all processes of a parallel simulation spawn the
 same number of agents at the same locations

---
 flee/flee.py     | 21 ++++++++++++++++++---
 flee/pflee.py    | 15 +++++++++++++++
 flee/spawning.py |  4 ++--
 3 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 67c0444..92012e9 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1623,9 +1623,24 @@ class Ecosystem:
 
         wgt = self.spawn_weights / spawn_weight_total
 
-        return np.random.choice(
-            self.locations, number, p=wgt
-        ).tolist()
+        indices = self.synchronise(np.random.choice(len(self.locations), number, p=wgt))
+        return [self.locations[i] for i in indices]
+
+
+    @check_args_type
+    def synchronise(self, value):
+        """
+        Summary:
+            Returns a randomly drawn value that all processes of a parallel
+            simulation need to agree on.
+
+        Args:
+            value: The value drawn on this process.
+
+        Returns:
+            The value itself, as sequential Flee uses one process.
+        """
+        return value
 
 
     @check_args_type
diff --git a/flee/pflee.py b/flee/pflee.py
index 1a8991d..d89ff23 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -704,6 +704,21 @@ class Ecosystem(flee.Ecosystem):
         self.updateNumAgents(log=False)
 
 
+    @check_args_type
+    def synchronise(self, value):
+        """
+        Summary:
+            Returns a randomly drawn value that all processes need to agree on.
+
+        Args:
+            value: The value drawn on this process.
+
+        Returns:
+            The value drawn on the root process.
+        """
+        return self.mpi.comm.bcast(value, root=0)
+
+
     @check_args_type
     def numAgents(self) -> int:
         """
diff --git a/flee/spawning.py b/flee/spawning.py
index 990c81f..d989be1 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -254,7 +254,7 @@ def spawn_daily_displaced(e, t, d):
                 num_spawned = int(SimulationSettings.spawn_rules["displaced_per_conflict_day"] * e.locations[i].pop * e.locations[i].conflict)
 
             elif SimulationSettings.spawn_rules["conflict_spawn_mode"].lower() == "poisson":
-                num_spawned = np.random.poisson(SimulationSettings.spawn_rules["displaced_per_conflict_day"] * e.locations[i].conflict)
+                num_spawned = e.synchronise(np.random.poisson(SimulationSettings.spawn_rules["displaced_per_conflict_day"] * e.locations[i].conflict))
 
         ## Doing the actual spawning here.
         for j in range(0, num_spawned):
@@ -281,7 +281,7 @@ def spawn_daily_displaced(e, t, d):
                 num_spawned = int(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level] * e.locations[i].pop)
     
             elif SimulationSettings.spawn_rules["flood_spawn_mode"].lower() == "poisson":
-                num_spawned = np.random.poisson(int(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level]))
+                num_spawned = e.synchronise(np.random.poisson(int(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level])))
 
         ## Doing the actual spawning here.
         for j in range(0, num_spawned):
-- 
2.43.0


From ce4f98f89bcb9546a48d338cfdfc4ba9cfd4ba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:30 +0000
Subject: [PATCH 34/69] fix: starting empty subtracts the day zero level of the
 total column consistently

---
 flee/datamanager/DataTable.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/flee/datamanager/DataTable.py b/flee/datamanager/DataTable.py
index c365430..97e3d87 100644
--- a/flee/datamanager/DataTable.py
+++ b/flee/datamanager/DataTable.py
@@ -346,7 +346,6 @@ class DataTable:
             # ref_table = self.data_table[0]
 
             new_refugees = 0
-            self.day0pops["total"] = 0
 
             for i in self.header:
                 camp_pop = self.get_field(
@@ -360,13 +359,11 @@ class DataTable:
 
                 if SumFromCamps is True:
                     new_refugees += camp_pop
-                    self.day0pops["total"] += camp_pop
 
             if SumFromCamps is False:
                 new_refugees = self.get_field(
                     name="total", day=0, FullInterpolation=FullInterpolation
                 )
-                self.day0pops["total"] = new_refugees
 
             # Don't have new refugees on Day 0 if we start empty
             new_refugees *= (1 - self.start_empty)
-- 
2.43.0


From 0690aee5c3dda999d4b215bea69c174af3e75510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:14 +0000
Subject: [PATCH 35/69] fix: files merged for one camp add up on every date of
 either file

---
 flee/datamanager/DataTable.py | 36 +++++++++--------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/flee/datamanager/DataTable.py b/flee/datamanager/DataTable.py
index 97e3d87..b4c5789 100644
--- a/flee/datamanager/DataTable.py
+++ b/flee/datamanager/DataTable.py
@@ -129,33 +129,15 @@ def AddCSVTables(table1: np.ndarray, table2: np.ndarray) -> np.ndarray:
     """
     table = np.zeros([0, 2])
 
-    offset = 0
-    last_c2 = np.zeros(([1, 2]))
-    for c2 in table2:
-
-        # If table 2 date value is higher, then keep adding entries from table
-        # 1
-        while c2[0] > table1[offset][0]:
-            table = np.vstack([table, [table1[offset][0], last_c2[1] + table1[offset][1]]])
-            if offset < len(table1) - 1:
-                offset += 1
-            else:
-                break
-
-        # If the two match, add a total.
-        if c2[0] == table1[offset][0]:
-            table = np.vstack([table, [c2[0], c2[1] + table1[offset][1]]])
-            if offset < len(table1) - 1:
-                offset += 1
-            last_c2 = c2
-            continue
-
-        # If table 1 value is higher, add an aggregate entry, and go to the
-        # next iteration without increasing the offset.
-        if c2[0] < table1[offset][0]:
-            table = np.vstack([table, [c2[0], c2[1] + table1[offset][1]]])
-            last_c2 = c2
-            continue
+    # The total on each date in either table is the sum of the most recent values
+    # of both (zero before the first date of a table).
+    for day in np.union1d(table1[:, 0], table2[:, 0]):
+        total = 0.0
+        for t in (table1, table2):
+            earlier = t[t[:, 0] <= day]
+            if len(earlier) > 0:
+                total += earlier[-1, 1]
+        table = np.vstack([table, [day, total]])
 
     return table
 
-- 
2.43.0


From 25f87416838df297a142e8017016ff540f71bd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:54 +0000
Subject: [PATCH 36/69] fix: registration corrections on dates without earlier
 data are ignored

---
 flee/datamanager/handle_refugee_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flee/datamanager/handle_refugee_data.py b/flee/datamanager/handle_refugee_data.py
index bda8141..0a13aa3 100644
--- a/flee/datamanager/handle_refugee_data.py
+++ b/flee/datamanager/handle_refugee_data.py
@@ -71,6 +71,7 @@ class RefugeeTable(DataTable.DataTable):
             #If the wrong data is before the simulation period, then ignore the correction altogether.
             return 1.0
 
+        factor = 1.0
         for i in range(0, len(ref_table)):
             if int(ref_table[i][0]) == int(days):
                 # then scale all previous entries by ref_table[i][1]/ref_table[i-1][1]
@@ -84,10 +85,11 @@ class RefugeeTable(DataTable.DataTable):
                         print(f"Last level 1 value: {last_level_1_value} Last data value: {ref_table[i - 1, 1]} Day0Pop: {self.day0pops.get(name, 0)}", file=sys.stderr)
                         sys.exit()
                     # print(days, i, ref_table[0:i,1])
-                    ref_table[0:i, 1] *= first_level_2_value / last_level_1_value
+                    factor = float(first_level_2_value / last_level_1_value)
+                    ref_table[0:i, 1] *= factor
                     # print(first_level_2_value, last_level_1_value, ref_table[0:i,1])
 
-        return float(first_level_2_value / last_level_1_value)
+        return factor
 
     @check_args_type
     def getMaxFromData(self, name: str, days: int) -> int:
-- 
2.43.0


From 311c290784a499839f27830597dab25f901be12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:14 +0000
Subject: [PATCH 37/69] fix: forced redirection entries create one link pair,
 with the documented direction

---
 flee/InputGeography.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index c718a19..19d79bc 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -528,17 +528,19 @@ class InputGeography:
                     l3 = 0
 
                 if int(l3) == 1:
+                    # Redirection from name2 to name1.
                     e.linkUp(
-                        endpoint1=link[0],
-                        endpoint2=link[1],
+                        endpoint1=link[1],
+                        endpoint2=link[0],
                         distance=float(link[2]),
                         forced_redirection=True,
                         attributes=attributes,
                     )
-                if int(l3) == 2:
+                elif int(l3) == 2:
+                    # Redirection from name1 to name2.
                     e.linkUp(
-                        endpoint1=link[1],
-                        endpoint2=link[0],
+                        endpoint1=link[0],
+                        endpoint2=link[1],
                         distance=float(link[2]),
                         forced_redirection=True,
                         attributes=attributes,
-- 
2.43.0


From 417dbed7f29faa5eb8d07d1b288cb2a08d5a02ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:58 +0000
Subject: [PATCH 38/69] fix: comment and empty lines in major routes files are
 ignored, and padded rows work in both directions

---
 flee/InputGeography.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 19d79bc..dbfb49f 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -269,9 +269,12 @@ class InputGeography:
         with open(csv_name, newline="", encoding="utf-8") as csvfile:
             values = csv.reader(csvfile)
             for row in values:
+                # Rows may be padded with empty cells.
+                row = [x for x in row if x]
                 if len(row) == 0 or row[0][0] == "#":
                     pass
-                self.major_routes.append(row)
+                else:
+                    self.major_routes.append(row)
 
 
     @check_args_type
-- 
2.43.0


From 02fc8b3b5a15f60023c49e54804bc72e241c9abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:52 +0000
Subject: [PATCH 39/69] fix: agents.csv may start with comment or empty lines

---
 flee/InputGeography.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index dbfb49f..af27796 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -385,11 +385,11 @@ class InputGeography:
         with open(csv_name, newline="", encoding="utf-8") as csvfile:
             values = csv.reader(csvfile)
 
-            i = 0
+            headers = None
             for row in values:
                 if len(row) == 0 or row[0][0] == "#":
                     pass
-                elif i == 0:
+                elif headers is None:
                     headers = row[1:]
                     print(headers)
                 else:
@@ -405,8 +405,7 @@ class InputGeography:
                             loc_found= True
 
                     if not loc_found:
-                        print("could not map location to CSV-loaded agent on line. (not count commented lines or empty lines)", sys.stderr)
-                i += 1
+                        print("could not map location to CSV-loaded agent on line. (not count commented lines or empty lines)", file=sys.stderr)
 
 
     def StoreInputGeographyInEcosystem(self, e):
-- 
2.43.0


From b17921207ab99213e1b56cc60eb04843bf6353ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:00 +0000
Subject: [PATCH 40/69] fix: agents, locations and links hold their own
 attributes

---
 flee/flee.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 92012e9..d602c87 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -72,7 +72,7 @@ class Person:
         # current link.
         self.distance_travelled_on_link = 0
 
-        self.attributes=attributes
+        self.attributes = dict(attributes)
         self.route = []
 
         if SimulationSettings.log_levels["agent"] > 0:
@@ -359,7 +359,7 @@ class Location:
         self.time_of_conflict = -1 # Time that a major conflict event last took place.
         self.numAgentsSpawned = 0
 
-        self.attributes = attributes # This will store a range of attributes that are read from file.
+        self.attributes = dict(attributes) # This will store a range of attributes that are read from file.
 
         if location_type is not None:
             if "camp" in location_type.lower():
@@ -688,7 +688,7 @@ class Link:
         # if True, then all Persons will go down this link.
         self.forced_redirection = forced_redirection
 
-        self.attributes = attributes
+        self.attributes = dict(attributes)
 
 
     @check_args_type
-- 
2.43.0


From 7ca27de7b5f22d86f83890c9ebdb3dc5d24e5555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:09 +0000
Subject: [PATCH 41/69] fix: camps_are_sinks is read from the configuration
 file

---
 flee/SimulationSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/SimulationSettings.py b/flee/SimulationSettings.py
index ba12563..2720e4e 100644
--- a/flee/SimulationSettings.py
+++ b/flee/SimulationSettings.py
@@ -143,7 +143,7 @@ class SimulationSettings:
             print("NOTE: conflict_zone_spawning_only is enabled by default, and needs to be disabled when you define flood_zone_spawning_only to be true.", file=sys.stderr)
             sys.exit()
 
-        SimulationSettings.spawn_rules["camps_are_sinks"] = bool(fetchss(dps, "camps_are_sicks", False)) # Camps can deactivate agents.
+        SimulationSettings.spawn_rules["camps_are_sinks"] = bool(fetchss(dps, "camps_are_sinks", False)) # Camps can deactivate agents.
         SimulationSettings.spawn_rules["read_from_agents_csv_file"] = bool(fetchss(dps, "read_from_agents_csv_file", False)) # Load agents from agents.csv file.
 
         SimulationSettings.spawn_rules["sum_from_camps"] = bool(fetchss(dps, "sum_from_camps", True)) #Sum total migrant numbers from camp data numbers, instead of from refugees.csv.
-- 
2.43.0


From 0f647448eee1d28343f8027846fffbbf6f8d2872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:00 +0000
Subject: [PATCH 42/69] fix: settings of an earlier configuration file no
 longer persist

---
 flee/SimulationSettings.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flee/SimulationSettings.py b/flee/SimulationSettings.py
index 2720e4e..c0a0188 100644
--- a/flee/SimulationSettings.py
+++ b/flee/SimulationSettings.py
@@ -94,6 +94,11 @@ class SimulationSettings:
         with open(ymlfile) as f:
             dp = yaml.safe_load(f)
 
+        # Settings from a previously read file do not carry over.
+        for settings in (SimulationSettings.log_levels, SimulationSettings.spawn_rules,
+                         SimulationSettings.move_rules, SimulationSettings.optimisations):
+            settings.clear()
+
         number_of_steps = float(fetchss(dp,"number_of_steps",-1))
         #Defined in run.py
         SimulationSettings.ConflictInputFile = fetchss(dp,"conflict_input_file","")
-- 
2.43.0


From 05cdd227219770de04c7cee7eda5ed9d6d98fcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:53 +0000
Subject: [PATCH 43/69] fix: flood settings take effect when written as
 documented

---
 flee/SimulationSettings.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flee/SimulationSettings.py b/flee/SimulationSettings.py
index c0a0188..0de2f2d 100644
--- a/flee/SimulationSettings.py
+++ b/flee/SimulationSettings.py
@@ -195,7 +195,8 @@ class SimulationSettings:
 
             SimulationSettings.spawn_rules["flood_driven_spawning"] = True # Conflicts provide a direct push factor.
 
-            SimulationSettings.spawn_rules["flood_spawn_mode"] = fetchss(dpsc,"spawn_mode","pop_ratio") # constant, Poisson, pop_ratio
+            # Both flood_spawn_mode and spawn_mode are accepted: constant, Poisson, pop_ratio
+            SimulationSettings.spawn_rules["flood_spawn_mode"] = fetchss(dpsc,"flood_spawn_mode",fetchss(dpsc,"spawn_mode","pop_ratio"))
 
             if SimulationSettings.spawn_rules["flood_spawn_mode"] == "pop_ratio":
               SimulationSettings.spawn_rules["displaced_per_flood_day"] = fetchss(dpsc,"displaced_per_flood_day", [0.0,0.1,0.2,0.5,0.9]) #expect an array.
@@ -302,6 +303,10 @@ class SimulationSettings:
         # DFlee Flood Location Move rules
         dpf = fetchss(dpr, "flood_rules", None)
 
+        # Flood rules may also be placed directly in the move_rules section.
+        if dpf is None and dpr is not None and any(k in dpr for k in ("max_flood_level", "flood_movechances", "flood_loc_weights")):
+          dpf = dpr
+
         if dpf is not None:
           SimulationSettings.move_rules["FloodRulesEnabled"] = True
           SimulationSettings.spawn_rules["MaxFloodLevel"] = int(fetchss(dpf,"max_flood_level", -1))
-- 
2.43.0


From 9b8bdadbb22a07c05e6afb1156ab8356ca37e216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:39 +0000
Subject: [PATCH 44/69] fix: the average of Poisson spawn modes is not
 truncated

---
 flee/SimulationSettings.py | 6 ++++--
 flee/spawning.py           | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/flee/SimulationSettings.py b/flee/SimulationSettings.py
index 0de2f2d..5850a9e 100644
--- a/flee/SimulationSettings.py
+++ b/flee/SimulationSettings.py
@@ -169,8 +169,10 @@ class SimulationSettings:
           
             SimulationSettings.spawn_rules["conflict_spawn_mode"] = fetchss(dpsc,"spawn_mode","constant") # constant, Poisson, pop_ratio
 
-            if SimulationSettings.spawn_rules["conflict_spawn_mode"] == "pop_ratio":
+            if SimulationSettings.spawn_rules["conflict_spawn_mode"].lower() == "pop_ratio":
               SimulationSettings.spawn_rules["displaced_per_conflict_day"] = float(fetchss(dpsc,"displaced_per_conflict_day", 0.01))
+            elif SimulationSettings.spawn_rules["conflict_spawn_mode"].lower() == "poisson":
+              SimulationSettings.spawn_rules["displaced_per_conflict_day"] = float(fetchss(dpsc,"displaced_per_conflict_day", 500)) # average
             else:
               SimulationSettings.spawn_rules["displaced_per_conflict_day"] = int(fetchss(dpsc,"displaced_per_conflict_day", 500))
 
@@ -198,7 +200,7 @@ class SimulationSettings:
             # Both flood_spawn_mode and spawn_mode are accepted: constant, Poisson, pop_ratio
             SimulationSettings.spawn_rules["flood_spawn_mode"] = fetchss(dpsc,"flood_spawn_mode",fetchss(dpsc,"spawn_mode","pop_ratio"))
 
-            if SimulationSettings.spawn_rules["flood_spawn_mode"] == "pop_ratio":
+            if SimulationSettings.spawn_rules["flood_spawn_mode"].lower() == "pop_ratio":
               SimulationSettings.spawn_rules["displaced_per_flood_day"] = fetchss(dpsc,"displaced_per_flood_day", [0.0,0.1,0.2,0.5,0.9]) #expect an array.
             else:
               SimulationSettings.spawn_rules["displaced_per_flood_day"] = fetchss(dpsc,"displaced_per_flood_day", [0,100,200,300,500])
diff --git a/flee/spawning.py b/flee/spawning.py
index d989be1..6c52c7a 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -281,7 +281,7 @@ def spawn_daily_displaced(e, t, d):
                 num_spawned = int(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level] * e.locations[i].pop)
     
             elif SimulationSettings.spawn_rules["flood_spawn_mode"].lower() == "poisson":
-                num_spawned = e.synchronise(np.random.poisson(int(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level])))
+                num_spawned = e.synchronise(np.random.poisson(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level]))
 
         ## Doing the actual spawning here.
         for j in range(0, num_spawned):
-- 
2.43.0


From 3b77f8dc07ca7513ff68309e0eac2a1b262cac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:12 +0000
Subject: [PATCH 45/69] fix: deactivation probabilities can be loaded from
 locations.csv

---
 flee/flee.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flee/flee.py b/flee/flee.py
index d602c87..7dfd049 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1704,7 +1704,8 @@ class Ecosystem:
                     if a.location is not None:
                         if a.location.camp == True:
                             outcome = random.random()
-                            if outcome < a.location.attributes.get("deactivation_probability", 0.0):
+                            # Attributes loaded from locations.csv are strings, which can be empty.
+                            if outcome < float(a.location.attributes.get("deactivation_probability", 0.0) or 0.0):
                                 a.location = None
 
         self.time += 1
-- 
2.43.0


From d6cf9f03846a2326ef8fd28a8167d33f7559245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:51 +0000
Subject: [PATCH 46/69] fix: parallel simulations support camps as sinks

---
 flee/pflee.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index d89ff23..30cc67b 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import os
+import random
 import sys
 from functools import wraps
 from typing import List, Optional
@@ -866,14 +867,16 @@ class Ecosystem(flee.Ecosystem):
 
         # update agent locations
         for a in self.agents:
-            a.evolve(self, time=self.time)
+            if a.location is not None:
+                a.evolve(self, time=self.time)
 
         # print("NumAgents after evolve:", file=sys.stderr)
         self.updateNumAgents(CountClosed=True, log=False)
 
         for a in self.agents:
-            a.finish_travel(self, time=self.time)
-            a.timesteps_since_departure += 1
+            if a.location is not None:
+                a.finish_travel(self, time=self.time)
+                a.timesteps_since_departure += 1
 
         if SimulationSettings.log_levels["agent"] > 0:
             write_agents_par(rank=self.mpi.rank, agents=self.agents, time=self.time)
@@ -899,10 +902,12 @@ class Ecosystem(flee.Ecosystem):
         if SimulationSettings.spawn_rules["camps_are_sinks"] == True:
             for a in self.agents:
                 if a.travelling == False:
-                    if a.location.camp == True:
-                        outcome = random.random()
-                        if outcome < a.location.attributes.get("deactivation_probability", 0.0):
-                            a.location = None
+                    if a.location is not None:
+                        if a.location.camp == True:
+                            outcome = random.random()
+                            # Attributes loaded from locations.csv are strings, which can be empty.
+                            if outcome < float(a.location.attributes.get("deactivation_probability", 0.0) or 0.0):
+                                a.location = None
 
         self.time += 1
 
-- 
2.43.0


From eb6f523a3efe4049851fd55cc0ea180f793024e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:31 +0000
Subject: [PATCH 47/69] fix: agent logs at region granularity do not reveal the
 home location

---
 flee/Diagnostics.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flee/Diagnostics.py b/flee/Diagnostics.py
index 34546d4..8572be4 100644
--- a/flee/Diagnostics.py
+++ b/flee/Diagnostics.py
@@ -89,11 +89,13 @@ def write_agents_par(
             if a.location is None: #Do not write agent logs for agents that are removed from the simulation.
                 continue
 
+            home_name = a.home_location.name
             loc_name = a.location.name
             x = a.location.x
             y = a.location.y
 
             if SimulationSettings.log_levels["granularity"] == "region":
+                home_name = a.home_location.region
                 loc_name = a.location.region
                 x = 0.0
                 y = 0.0
@@ -103,7 +105,7 @@ def write_agents_par(
                     time,
                     rank,
                     k,
-                    a.home_location.name,
+                    home_name,
                     loc_name,
                     x,
                     y,
@@ -134,7 +136,7 @@ def write_agents_par(
                                 hop_number,
                                 rank,
                                 k,
-                                a.home_location.name,
+                                home_name,
                                 loc_name,
                                 x,
                                 y,
@@ -162,7 +164,7 @@ def write_agents_par(
                                 time,
                                 rank,
                                 k,
-                                a.home_location.name,
+                                home_name,
                                 loc_name,
                                 x,
                                 y,
-- 
2.43.0


From a19aa5b0ae5e9eab573d5e13d7f827ee3a757ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:28 +0000
Subject: [PATCH 48/69] fix: parallel agent logs list only the places visited
 in the current time step

---
 flee/pflee.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flee/pflee.py b/flee/pflee.py
index 30cc67b..2aff74f 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -867,6 +867,8 @@ class Ecosystem(flee.Ecosystem):
 
         # update agent locations
         for a in self.agents:
+            if SimulationSettings.log_levels["agent"] > 1:
+                a.locations_visited = []
             if a.location is not None:
                 a.evolve(self, time=self.time)
 
-- 
2.43.0


From 81eddafe487a9721052838525ea59259cba0c778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:21 +0000
Subject: [PATCH 49/69] fix: parallel numIDPs counts every agent once

---
 flee/pflee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index 2aff74f..1cc31cd 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -466,10 +466,10 @@ class Ecosystem(flee.Ecosystem):
 
         for loc in self.locations:
             if loc.idpcamp:
+                # numAgents is already a total across all processes.
                 num_idps += loc.numAgents
 
-        num_idps_all = self.mpi.CalcCommWorldTotalSingle(num_idps)
-        return num_idps_all
+        return int(num_idps)
 
 
     @check_args_type
-- 
2.43.0


From c284366211b2e1ac298c1e4ddad2c494ccf5ac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:21 +0000
Subject: [PATCH 50/69] fix: parallel agent totals include agents on closed and
 removed links

---
 flee/pflee.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index 1cc31cd..d82df79 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -535,24 +535,18 @@ class Ecosystem(flee.Ecosystem):
         """
         mode = self.latency_mode
 
-        total = 0
-
         if mode == "low_latency":
             for loc in self.locations:
                 loc.numAgents = self.mpi.CalcCommWorldTotalSingle(loc.numAgentsOnRank)
-                total += loc.numAgents
                 # print("location:", self.time, loc.name, loc.numAgents, file=sys.stderr)
                 for link in loc.links:
                     link.numAgents = self.mpi.CalcCommWorldTotalSingle(link.numAgentsOnRank)
                     # print(self.time, "link:", loc.name, link.numAgents, file=sys.stderr)
-                    total += link.numAgents
                 if CountClosed:
                     for link in loc.closed_links:
                         link.numAgents = self.mpi.CalcCommWorldTotalSingle(link.numAgentsOnRank)
                         # print(self.time, "link [closed]:", loc.name, link.numAgents,
                         #       file=sys.stderr)
-                        total += link.numAgents
-            self.total_agents = total
         elif mode == "high_latency":
             buf_len = 0
 
@@ -590,7 +584,8 @@ class Ecosystem(flee.Ecosystem):
                         link.numAgents = new_buffer[index]
                         index += 1
 
-            self.total_agents = np.sum(new_buffer)
+        # Agents on closed or removed links are part of the simulation too.
+        self.total_agents = int(self.mpi.CalcCommWorldTotalSingle(len(self.agents)))
 
         if self.mpi.rank == 0 and log is True:
             print(
-- 
2.43.0


From 43a3f4487edcd62eb165dab1ac855aa7fea969fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:21 +0000
Subject: [PATCH 51/69] fix: parallel locations can be cleared after agents
 were deactivated

---
 flee/pflee.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index d82df79..ebe4b34 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -685,7 +685,7 @@ class Ecosystem(flee.Ecosystem):
 
         new_agents = []
         for agent in self.agents:
-            if agent.location.name not in location_names:
+            if agent.location is None or agent.location.name not in location_names:
                 new_agents += [agent]
             else:
                 # print("Agent removed: ", agent.location.name)
-- 
2.43.0


From 35e0132879eba96cceb5b69e9963cd9e6ba6f4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:21 +0000
Subject: [PATCH 52/69] fix: a new parallel ecosystem starts with its own score
 table

---
 flee/pflee.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flee/pflee.py b/flee/pflee.py
index ebe4b34..783ca95 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -409,6 +409,8 @@ class Ecosystem(flee.Ecosystem):
 
         self.cur_loc_id = 0
         self.scores_per_location = 2
+        # The scores are static, but belong to the locations of this Ecosystem.
+        Ecosystem.scores = np.array([1.0, 1.0])
 
         # Bring conflict zone management into FLEE.
         self.spawn_weights = np.array([])
-- 
2.43.0


From 82f6d7b906489843ccc29390c5b8b6bc5a511858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:21 +0000
Subject: [PATCH 53/69] fix: parallel agents newly added count towards camp
 occupancy right away

---
 flee/pflee.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flee/pflee.py b/flee/pflee.py
index 783ca95..d3ee9ff 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -805,6 +805,9 @@ class Ecosystem(flee.Ecosystem):
             None.
 
         """
+        # Agents may have been added since the previous time step.
+        self.updateNumAgents(CountClosed=True, log=False)
+
         if self.time == 0:
             # print("rank, num_agents:", self.mpi.rank, len(self.agents))
 
-- 
2.43.0


From 6c2899f6ce498abd7ffdfb90b1bfb1099a9fca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:05 +0000
Subject: [PATCH 54/69] fix: parallel places that become markers lose their
 location routes

---
 flee/crawling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index eefeeb9..701f8e0 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -259,11 +259,11 @@ def generateLocationRoutes(l, time: int, debug: bool = False):
   Returns:
       int: Index of the chosen route
   """
-  if l.marker:
-      return {}
-
   l.routes = {}
 
+  if l.marker:
+      return l.routes
+
   if SimulationSettings.move_rules["AwarenessLevel"] == 0:
     # Agents pick an adjacent link themselves, see moving.selectRoute.
     return l.routes
-- 
2.43.0


From 9687a005e7abe73441aeb5906c83a9cd4236f9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:04 +0000
Subject: [PATCH 55/69] fix: coupled models never read a coupling file that is
 being written

---
 flee/coupling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 84a9f8a..2ae79e6 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -458,8 +458,11 @@ class CouplingInterface:
         csv_outputfile_name = "{}[{}].{}.csv".format(self.outputfilename, self.instance_index, day)
         csv_outputfile_path = os.path.join(self.outputdir, "file", "coupled", csv_outputfile_name)
 
-        with open(csv_outputfile_path, "a", encoding="utf-8") as file:
+        # The partner models start reading as soon as the output file exists, so
+        # it only gets its name once it is complete.
+        with open(csv_outputfile_path + ".tmp", "w", encoding="utf-8") as file:
             file.write(out_csv_string)
+        os.replace(csv_outputfile_path + ".tmp", csv_outputfile_path)
 
         print(
             "{}[{}] t={} Couple: output written to {}".format(
-- 
2.43.0


From 85ed911e231b44bd430575d65490d1cebf72da0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:04 +0000
Subject: [PATCH 56/69] fix: exchanges of sequential models can be logged

---
 flee/coupling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 2ae79e6..a767a45 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -639,7 +639,7 @@ class CouplingInterface:
             self.logTotalAgents = []
             # logTotalAgents.append([day,total_agents])
 
-        self.logTotalAgents.append([t, self.e.total_agents])
+        self.logTotalAgents.append([t, self.e.numAgents()])
 
         # save log of numAgents in locations
         if not hasattr(self, "logLocationsNumAgents"):
-- 
2.43.0


From f20ddab991d945d8b7e17f2ab21414787b736c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:04 +0000
Subject: [PATCH 57/69] fix: coupled locations that a partner model does not
 report receive no agents

---
 flee/coupling.py | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index a767a45..d144d0e 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -259,13 +259,8 @@ class CouplingInterface:
                                 csv_string=msg.data["newAgents"].split("\n")
                             )
 
-                            if len(newAgents) == 0:
-                                newAgents = curr_newAgent
-                            else:
-                                for name, newAgents_num in curr_newAgent.items():
-                                    if not isinstance(newAgents[name], list):
-                                        newAgents[name] = [newAgents[name]]
-                                    newAgents[name].append(newAgents_num)
+                            for name, newAgents_num in curr_newAgent.items():
+                                newAgents.setdefault(name, []).append(newAgents_num)
 
                         # combined founded newAgents per location by each
                         # instance into one
@@ -291,13 +286,8 @@ class CouplingInterface:
                                 csv_string=msg.data["newAgents"].split("\n")
                             )
 
-                            if len(newAgents) == 0:
-                                newAgents = curr_newAgent
-                            else:
-                                for name, newAgents_num in curr_newAgent.items():
-                                    if not isinstance(newAgents[name], list):
-                                        newAgents[name] = [newAgents[name]]
-                                    newAgents[name].append(newAgents_num)
+                            for name, newAgents_num in curr_newAgent.items():
+                                newAgents.setdefault(name, []).append(newAgents_num)
 
                         # combined founded newAgents per location by
                         # each instance into one
@@ -352,7 +342,7 @@ class CouplingInterface:
                     if "in" in self.directions[i]:
 
                         print(
-                            "Couple IN: {} {}".format(self.names[i], newAgents[self.names[i]]),
+                            "Couple IN: {} {}".format(self.names[i], newAgents.get(self.names[i], 0)),
                             file=sys.stderr,
                         )
 
@@ -526,13 +516,8 @@ class CouplingInterface:
                 csv_string = csvfile.read().split("\n")
 
             curr_newAgent = self.extractNewAgentsFromCSVString(csv_string=csv_string)
-            if len(aggNewAgents) == 0:
-                aggNewAgents = curr_newAgent
-            else:
-                for name, newAgents_num in curr_newAgent.items():
-                    if not isinstance(aggNewAgents[name], list):
-                        aggNewAgents[name] = [aggNewAgents[name]]
-                    aggNewAgents[name].append(newAgents_num)
+            for name, newAgents_num in curr_newAgent.items():
+                aggNewAgents.setdefault(name, []).append(newAgents_num)
 
         # combined founded newAgents per location by each instance into one
         # for now, we use arithmetic mean,
-- 
2.43.0


From fdac57dfbdffc5dbd4d35cbf60984528b4f11d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:04 +0000
Subject: [PATCH 58/69] fix: parallel coupled models announce agents added
 since the last time step

---
 flee/coupling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flee/coupling.py b/flee/coupling.py
index d144d0e..0de559d 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -246,6 +246,10 @@ class CouplingInterface:
         # added later if we need higher interval values here
         if time % self.intervals[0] == 0:
             # if True:
+            if hasattr(self.e, "mpi"):
+                # Agents may have been added since the last update.
+                self.e.updateNumAgents(log=False)
+
             if self.coupling_type == "muscle3":
                 if self.coupling_rank:
                     # If MPI is used, this will be the process with rank 0
-- 
2.43.0


From fa2a57c6d4f19c5a405b3ce895da645c79ca71a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:05 +0000
Subject: [PATCH 59/69] fix: every simulation has its own spawning counters and
 demographics

---
 flee/flee.py     |  3 +++
 flee/pflee.py    |  3 +++
 flee/spawning.py | 40 ++++++++++++++++------------------------
 3 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 7dfd049..b460ef6 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -800,6 +800,9 @@ class Ecosystem:
         self.closures = []  # format [type, source, dest, start, end]
         self.time = 0
         self.print_location_output = True  # print location output data
+        self.refugees_raw = 0  # raw refugee count in the data so far.
+        self.refugee_debt = 0  # decrease in the data not yet made up for.
+        self.demographics = {}  # agent attribute distributions
 
         # FLEE3 does not have a conflict zone list, and spawn weights cover all locations.
         self.spawn_weights = np.array([])
diff --git a/flee/pflee.py b/flee/pflee.py
index d3ee9ff..9c5931a 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -402,6 +402,9 @@ class Ecosystem(flee.Ecosystem):
         self.closures = []  # format [type, source, dest, start, end]
         self.time = 0
         self.print_location_output = False
+        self.refugees_raw = 0  # raw refugee count in the data so far.
+        self.refugee_debt = 0  # decrease in the data not yet made up for.
+        self.demographics = {}  # agent attribute distributions
         self.mpi = MPIManager()
 
         if self.getRankN(0):
diff --git a/flee/spawning.py b/flee/spawning.py
index 6c52c7a..8aa073b 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -14,11 +14,6 @@ else:
         return func
 
 
-__refugees_raw = 0
-__refugee_debt = 0
-
-__demographics = {}
-
 
 def getAttributeRatio(location, attr_name):
     """
@@ -108,7 +103,7 @@ def read_demographic_csv(e, csvname):
   if SimulationSettings.log_levels["init"] > -1:
     print("INFO: ", attribute, " attributes loaded, with columns:", df.columns, file=sys.stderr)
   
-  __demographics[attribute] = df
+  e.demographics[attribute] = df
 
 
 def read_demographics(e):
@@ -151,13 +146,13 @@ def draw_sample(e, loc, attribute):
   Returns:
       float: Sample from the attribute distribution.
   """
-  #print(__demographics[attribute], file=sys.stderr)
-  #print(__demographics[attribute].iloc[0]['Default'], file=sys.stderr)
-  if attribute in __demographics:
-    if loc.name in __demographics[attribute].columns:
-      a = __demographics[attribute].sample(n=1,weights=loc.name)
+  #print(e.demographics[attribute], file=sys.stderr)
+  #print(e.demographics[attribute].iloc[0]['Default'], file=sys.stderr)
+  if attribute in e.demographics:
+    if loc.name in e.demographics[attribute].columns:
+      a = e.demographics[attribute].sample(n=1,weights=loc.name)
     else:
-      a = __demographics[attribute].sample(n=1,weights='Default')
+      a = e.demographics[attribute].sample(n=1,weights='Default')
   else:
     return -1
 
@@ -177,7 +172,7 @@ def draw_samples(e,loc):
         Dict: Dictionary of attribute names and values.
     """
     samples = {}
-    for a in __demographics.keys():
+    for a in e.demographics.keys():
         samples[a] = draw_sample(e, loc, a)
     return samples
 
@@ -195,9 +190,8 @@ def add_initial_refugees(e, d, loc):
   Returns:
       None.
   """
-  global __demographics
   # Only initialize demographics when first called.
-  if len(__demographics) == 0:
+  if len(e.demographics) == 0:
       read_demographics(e)
 
   if SimulationSettings.spawn_rules["EmptyCampsOnDay0"] is True:
@@ -231,8 +225,6 @@ def spawn_daily_displaced(e, t, d):
         Tuple[int, int, int]: Tuple containing the number of new agents, 
         the raw refugee count, and the refugee debt.
     """
-    global __refugees_raw, __refugee_debt
-
     new_refs = 0
 
     SumFromCamps = SimulationSettings.spawn_rules["sum_from_camps"]
@@ -294,14 +286,14 @@ def spawn_daily_displaced(e, t, d):
     else:
 
       # Determine number of new refugees to insert into the system.
-      new_refs = d.get_daily_difference(t, FullInterpolation=True, SumFromCamps=SumFromCamps) - __refugee_debt
-      __refugees_raw += d.get_daily_difference(t, FullInterpolation=True, SumFromCamps=SumFromCamps)
+      new_refs = d.get_daily_difference(t, FullInterpolation=True, SumFromCamps=SumFromCamps) - e.refugee_debt
+      e.refugees_raw += d.get_daily_difference(t, FullInterpolation=True, SumFromCamps=SumFromCamps)
 
       #Refugees are pre-placed in Mali, so set new_refs to 0 on Day 0.
       if SimulationSettings.spawn_rules["InsertDayZeroRefugeesInCamps"]:
         if t == 0:
           new_refs = 0
-          #__refugees_raw = 0
+          #e.refugees_raw = 0
 
           for l in e.locations:
               #print(l.name, l.capacity, d.day0pops.get(l.name,0),  file=sys.stderr)
@@ -311,10 +303,10 @@ def spawn_daily_displaced(e, t, d):
 
 
       if new_refs < 0:
-        __refugee_debt = -new_refs
+        e.refugee_debt = -new_refs
         new_refs = 0
-      elif __refugee_debt > 0:
-        __refugee_debt = 0
+      elif e.refugee_debt > 0:
+        e.refugee_debt = 0
 
       #Insert refugee agents
       locs = e.pick_spawn_locations(new_refs)
@@ -322,7 +314,7 @@ def spawn_daily_displaced(e, t, d):
         attributes = draw_samples(e, locs[i])
         e.addAgent(location=locs[i], attributes=attributes) # Parallelization is incorporated *inside* the addAgent function.
 
-    return new_refs, __refugees_raw, __refugee_debt
+    return new_refs, e.refugees_raw, e.refugee_debt
 
 
 def spawn_agents(e, number):
-- 
2.43.0


From 90b1250bb58c3d2fdbbea80d2daccf1181a98df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:15 +0000
Subject: [PATCH 60/69] fix: distances between opposite points on the globe can
 be calculated

---
 flee/flee.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flee/flee.py b/flee/flee.py
index b460ef6..f986432 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -441,7 +441,8 @@ class Location:
         dlat = lat2 - lat1
 
         a = math.sin(dlat / 2)**2 + math.cos(lat1) * math.cos(lat2) * math.sin(dlon / 2)**2
-        c = 2 * math.atan2(math.sqrt(a), math.sqrt(1 - a))
+        # Rounding can take a above 1 for opposite points on the globe.
+        c = 2 * math.atan2(math.sqrt(a), math.sqrt(max(0.0, 1 - a)))
 
         return R * c
 
-- 
2.43.0


From dfe9d644aeba4d71b37674a57b68fc78911082d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:15 +0000
Subject: [PATCH 61/69] fix: calculate_MASE accepts lists of values, as
 documented

---
 flee/postprocessing/analysis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flee/postprocessing/analysis.py b/flee/postprocessing/analysis.py
index 3d6f016..831c58a 100644
--- a/flee/postprocessing/analysis.py
+++ b/flee/postprocessing/analysis.py
@@ -134,6 +134,10 @@ def calculate_MASE(
             )
         )
 
+    forecast_vals = np.asarray(forecast_vals)
+    actual_vals = np.asarray(actual_vals)
+    naieve_vals = np.asarray(naieve_vals)
+
     offset = start_of_forecast_period + 1
 
     mean_naieve_error = np.sum((np.abs(actual_vals[offset:] - naieve_vals[offset:]))) / float(
-- 
2.43.0


From 6553bc8a5741c7389601bb8b76951e949e5a24f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:14 +0000
Subject: [PATCH 62/69] fix: messages of the library do not end up in the
 output table of the run scripts

---
 flee/InputGeography.py        | 2 --
 flee/datamanager/DataTable.py | 2 +-
 flee/flee.py                  | 3 ++-
 flee/pflee.py                 | 5 +++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index af27796..00a6fce 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -391,9 +391,7 @@ class InputGeography:
                     pass
                 elif headers is None:
                     headers = row[1:]
-                    print(headers)
                 else:
-                    print(row)
                     attr = {}
                     for i in range (1, len(row)):
                         attr[headers[i-1]] = row[i]
diff --git a/flee/datamanager/DataTable.py b/flee/datamanager/DataTable.py
index b4c5789..4368af9 100644
--- a/flee/datamanager/DataTable.py
+++ b/flee/datamanager/DataTable.py
@@ -412,7 +412,7 @@ class DataTable:
                 fraction = float(day - old_day) / float(ref_table[i, self.days_column] - old_day)
 
                 if fraction > 1.0:
-                    print("Error with days_column: ", ref_table[i, self.days_column])
+                    print("Error with days_column: ", ref_table[i, self.days_column], file=sys.stderr)
                     return -1
 
                 # print(day, old_day, ref_table[i][self.total_refugee_column], old_val)
diff --git a/flee/flee.py b/flee/flee.py
index f986432..56aeff7 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1794,7 +1794,8 @@ class Ecosystem:
             else:
                 print(
                     "WARNING: Number of agents in the simulation is larger than the"
-                    "population of the conflict zone."
+                    "population of the conflict zone.",
+                    file=sys.stderr,
                 )
                 location.print()
             location.numAgentsSpawned += 1
diff --git a/flee/pflee.py b/flee/pflee.py
index 9c5931a..c982493 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -31,7 +31,7 @@ class MPIManager:
 
     def __init__(self):
         if not MPI.Is_initialized():
-            print("Manual MPI_Init performed.")
+            print("Manual MPI_Init performed.", file=sys.stderr)
             MPI.Init()
         self.comm = MPI.COMM_WORLD
         self.rank = self.comm.Get_rank()
@@ -626,7 +626,8 @@ class Ecosystem(flee.Ecosystem):
             else:
                 print(
                     "ERROR: Number of agents in the simulation is larger than the combined "
-                    "population of the conflict zones. Please amend locations.csv." 
+                    "population of the conflict zones. Please amend locations.csv.",
+                    file=sys.stderr,
                 )
                 location.print()
                 assert location.pop > 0
-- 
2.43.0


From a080f7e1a84e4e7fd7923fdf49afe41e44fcde0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:14 +0000
Subject: [PATCH 63/69] fix: run_par.py can report IDP totals

---
 runscripts/run_par.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runscripts/run_par.py b/runscripts/run_par.py
index 751844c..72b9337 100644
--- a/runscripts/run_par.py
+++ b/runscripts/run_par.py
@@ -62,7 +62,7 @@ if __name__ == "__main__":
   output_header_string += "Total error,refugees in camps (UNHCR),total refugees (simulation),raw UNHCR refugee count,refugees in camps (simulation),refugee_debt"
 
   if SimulationSettings.log_levels["idp_totals"] > 0:
-      output += ",total IDPs".format(e.numIDPs())
+      output_header_string += ",total IDPs"
 
   if e.getRankN(0):
       print(output_header_string)
-- 
2.43.0


From 69656e6e33c8632e21d212bfd31c02b3cee8bda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:14 +0000
Subject: [PATCH 64/69] fix: the run scripts report the registered people and
 the debt when spawning does not use the data

---
 runscripts/run.py     | 2 +-
 runscripts/run_par.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/runscripts/run.py b/runscripts/run.py
index 99138f5..54d4c1e 100644
--- a/runscripts/run.py
+++ b/runscripts/run.py
@@ -112,7 +112,7 @@ if __name__ == "__main__":
     if refugees_raw>0:
       output += ",%s,%s,%s,%s,%s,%s" % (float(np.sum(abs_errors))/float(refugees_raw), int(sum(loc_data)), e.numAgents(), refugees_raw, refugees_in_camps_sim, refugee_debt)
     else:
-      output += ",0.0,0,{},0,{},0".format(e.numAgents(), refugees_in_camps_sim)
+      output += ",0.0,%s,%s,%s,%s,%s" % (int(sum(loc_data)), e.numAgents(), refugees_raw, refugees_in_camps_sim, refugee_debt)
 
     if SimulationSettings.log_levels["idp_totals"] > 0:
       output += ",{}".format(e.numIDPs())
diff --git a/runscripts/run_par.py b/runscripts/run_par.py
index 72b9337..72c0714 100644
--- a/runscripts/run_par.py
+++ b/runscripts/run_par.py
@@ -116,7 +116,7 @@ if __name__ == "__main__":
     if refugees_raw>0:
       output += ",%s,%s,%s,%s,%s,%s" % (float(np.sum(abs_errors))/float(refugees_raw), int(sum(loc_data)), e.numAgents(), refugees_raw, refugees_in_camps_sim, refugee_debt)
     else:
-      output += ",0.0,0,{},0,{},0".format(e.numAgents(), refugees_in_camps_sim)
+      output += ",0.0,%s,%s,%s,%s,%s" % (int(sum(loc_data)), e.numAgents(), refugees_raw, refugees_in_camps_sim, refugee_debt)
 
     if SimulationSettings.log_levels["idp_totals"] > 0:
       output += ",{}".format(e.numIDPs())
-- 
2.43.0


From 6485b5ea3bf84a6ace2b67d5f1502a29dad69c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:43 +0000
Subject: [PATCH 65/69] fix: combined output of coupled instances holds their
 mean

sumOutputCSVFiles computed the mean over the instances but wrote the
output of the last instance.
---
 flee/coupling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 0de559d..adb2be1 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -669,13 +669,13 @@ class CouplingInterface:
             df = pd.read_csv(os.path.join(dirInputFiles, fname), index_col=None, header=0)
             dfs.append(df)
 
-        frame = pd.concat(dfs, axis=0, ignore_index=True).groupby(["Day"]).mean()
+        frame = pd.concat(dfs, axis=0, ignore_index=True).groupby(["Day"], as_index=False).mean()
 
         for column_name in list(frame):
             if "error" not in column_name.lower():
-                frame[column_name].round(0).astype(int)
+                frame[column_name] = frame[column_name].round(0).astype(int)
 
-        df.to_csv(os.path.join(dirInputFiles, "out.csv"), encoding="utf-8", index=False)
+        frame.to_csv(os.path.join(dirInputFiles, "out.csv"), encoding="utf-8", index=False)
 
     # ------------------------------------------------------------------------
     #                           Plotting functions
-- 
2.43.0


From 11baddd61227729605e31bb70e9c1ad255458f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:43 +0000
Subject: [PATCH 66/69] fix: exchange logs with a single record can be read

---
 flee/coupling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index adb2be1..d24b073 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -906,7 +906,7 @@ class CouplingInterface:
 
         for fname in inputFileNames:
             with open(os.path.join(dirInputFiles, fname), "rb") as csvfile:
-                data = np.loadtxt(csvfile, delimiter=",", skiprows=1)
+                data = np.loadtxt(csvfile, delimiter=",", skiprows=1, ndmin=2)
 
                 # keep day column for plotting purpose
                 if len(days) == 0:
-- 
2.43.0


From dab1ebeaab8d1a2370a52dd624a4c88dfd6c9095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:57 +0000
Subject: [PATCH 67/69] fix: candidate routes of teenage boys have a floating
 point score in type-checking mode

---
 flee/moving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index e9a065a..179bfed 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -44,7 +44,7 @@ def getEndPointScore(agent, endpoint, time) -> float:
         if SimulationSettings.move_rules["BoysTakeRisk"]:
             if agent.attributes["gender"]=="male" and agent.attributes["age"]>14:
                 # Hypothesis that perceived safety does not affect routing decisions for teenage boys.
-                base = 1 
+                base = 1.0
 
 
     if SimulationSettings.move_rules["StayCloseToHome"]:
-- 
2.43.0


From 11e4c45a55b9b6cc37139a1e1efc6b8d9fa5c04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:57 +0000
Subject: [PATCH 68/69] fix: error measures accept and return what they are
 declared to in type-checking mode

---
 flee/postprocessing/analysis.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/flee/postprocessing/analysis.py b/flee/postprocessing/analysis.py
index 831c58a..8ebaa10 100644
--- a/flee/postprocessing/analysis.py
+++ b/flee/postprocessing/analysis.py
@@ -71,7 +71,7 @@ def abs_diffs(forecast_vals: np.ndarray, correct_vals: np.ndarray) -> np.ndarray
 
 
 @check_args_type
-def mean_abs_diffs(forecast_vals: np.ndarray, correct_vals: np.ndarray) -> np.ndarray:
+def mean_abs_diffs(forecast_vals: np.ndarray, correct_vals: np.ndarray) -> float:
     """
     Summary
 
@@ -80,13 +80,13 @@ def mean_abs_diffs(forecast_vals: np.ndarray, correct_vals: np.ndarray) -> np.nd
         correct_vals (np.ndarray): Description
 
     Returns:
-        np.ndarray: Description
+        float: Description
     """
     return np.round(np.mean(np.abs(forecast_vals - correct_vals)), ROUND_NDIGITS)
 
 
 @check_args_type
-def calculate_ln_accuracy_ratio(forecast_vals: np.ndarray, actual_vals: np.ndarray) -> np.ndarray:
+def calculate_ln_accuracy_ratio(forecast_vals: np.ndarray, actual_vals: np.ndarray) -> float:
     """
     Calculate the log of the accuracy ratio (forecast / actual)
     Return -1 if there is a 0 in the actual values
@@ -96,16 +96,16 @@ def calculate_ln_accuracy_ratio(forecast_vals: np.ndarray, actual_vals: np.ndarr
         actual_vals (np.ndarray): Description
 
     Returns:
-        np.ndarray: Description
+        float: Description
     """
     return np.round(np.mean(np.abs(np.log(forecast_vals / actual_vals))), ROUND_NDIGITS)
 
 
 @check_args_type
 def calculate_MASE(
-    forecast_vals: List[float],
-    actual_vals: List[float],
-    naieve_vals: List[float],
+    forecast_vals: Union[List[float], List[int], np.ndarray],
+    actual_vals: Union[List[float], List[int], np.ndarray],
+    naieve_vals: Union[List[float], List[int], np.ndarray],
     start_of_forecast_period: int = 30,
 ) -> float:
     """
-- 
2.43.0


From 1266ce5c2489ea9ee7a2e1cc897f8d7ca9da8b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:19 +0000
Subject: [PATCH 69/69] fix: location routes include destinations with a weight
 of zero

---
 flee/crawling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index 701f8e0..bdd5cc4 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -72,7 +72,9 @@ def _addLocationRoute(
     weight = weight**SimulationSettings.move_rules["WeightPower"]
 
     #print("Adding loc route:", origin_names[1:], link.endpoint.name, file=sys.stderr)
-    if weight > source_loc.routes.get(link.endpoint.name, [0,None])[0]:
+    # Routes with a weight of zero are kept too, unless there is a better one.
+    name = link.endpoint.name
+    if name not in source_loc.routes or weight > source_loc.routes[name][0]:
         source_loc.routes[link.endpoint.name] = [weight, origin_names[1:] + [link.endpoint.name], link.endpoint]
 
 
-- 
2.43.0

