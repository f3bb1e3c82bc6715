From 531104e0ddb59d8117a7fd13edbeae8feff681c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 01/21] fix: lever arm of the second body uses its own disc
 centre in distance_three_circles

---
 crowddynamics/core/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/distance.py b/crowddynamics/core/distance.py
index 681e120..1b6c634 100644
--- a/crowddynamics/core/distance.py
+++ b/crowddynamics/core/distance.py
@@ -100,7 +100,7 @@ def distance_three_circles(x0, r0, x1, r1):
                 j_min = j
 
     r_moment0 = x0[i_min] + r0[i_min] * normal - x0[0]
-    r_moment1 = x0[j_min] - r1[j_min] * normal - x1[0]
+    r_moment1 = x1[j_min] - r1[j_min] * normal - x1[0]
 
     return h_min, normal, r_moment0, r_moment1
 
-- 
2.43.0


From 42397dccd76f1a4a91bab750336e17c07abde329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 02/21] fix: distance_circle_line returned a NaN normal for a
 centre on a wall end point

---
 crowddynamics/core/distance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/core/distance.py b/crowddynamics/core/distance.py
index 1b6c634..589b2ec 100644
--- a/crowddynamics/core/distance.py
+++ b/crowddynamics/core/distance.py
@@ -10,7 +10,7 @@ import numba
 import numpy as np
 from numba import float64
 from numba.types import Tuple, UniTuple
-from crowddynamics.core.vector2D import length, rotate90, dot
+from crowddynamics.core.vector2D import length, rotate90, dot, normalize
 
 
 @numba.jit([Tuple((float64, float64[:]))(float64[:], float64,
@@ -132,10 +132,10 @@ def distance_circle_line(x, r, p0, p1):
 
     if l_t > l_w:
         d_iw = length(q0)
-        n_iw = q0 / d_iw
+        n_iw = normalize(q0)
     elif l_t < -l_w:
         d_iw = length(q1)
-        n_iw = q1 / d_iw
+        n_iw = normalize(q1)
     else:
         l_n = dot(n_w, q0)
         d_iw = np.abs(l_n)
-- 
2.43.0


From ff7d5c7e3227e75b8463282f12f851aca2a3dd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 03/21] fix: linestring_length_cumsum accumulates the segment
 lengths

---
 crowddynamics/core/sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/sampling.py b/crowddynamics/core/sampling.py
index 83a47a9..0a74cd5 100644
--- a/crowddynamics/core/sampling.py
+++ b/crowddynamics/core/sampling.py
@@ -11,9 +11,11 @@ from crowddynamics.core.geom2D import polygon_area
 def linestring_length_cumsum(vertices):
     n = len(vertices) - 1
     cumsum = np.zeros(n)
+    length = 0.0
     for i in range(n):
         diff = vertices[i] - vertices[i + 1]
-        cumsum[i] = np.hypot(diff[0], diff[1])
+        length += np.hypot(diff[0], diff[1])
+        cumsum[i] = length
     return cumsum
 
 
-- 
2.43.0


From c3c821ab5b19cfc8dbd8baced5cc5094ac4361e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 04/21] fix: force_social_three_circle ignores past collisions
 when it picks the first contact

A non-positive time to collision of an earlier disc pair was kept as the
current minimum and blocked every later positive one.
---
 crowddynamics/core/motion/power_law.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/motion/power_law.py b/crowddynamics/core/motion/power_law.py
index a189068..d651e91 100644
--- a/crowddynamics/core/motion/power_law.py
+++ b/crowddynamics/core/motion/power_law.py
@@ -321,7 +321,7 @@ def force_social_three_circle(agent, i, j):
                 continue
 
             tau_new = (b - d) / a
-            if np.isnan(tau) or 0 < tau_new < tau:
+            if tau_new > 0 and (np.isnan(tau) or tau_new < tau):
                 contact_i, contact_j = part_i, part_j
                 tau = tau_new
                 b_min = b
-- 
2.43.0


From 4854fd8914f20023f9c2abd5bec4e234ca192012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 05/21] fix: gradient of the time to collision of two
 three-circle agents

The relative position of the discs in contact is x_rel + r_off, where the left
shoulder lies at -r_ts*(sin(phi), -cos(phi)) and the right one at the opposite
side; the offset was doubled and had the wrong sign, so that the social force
was not the gradient of the interaction potential.
---
 crowddynamics/core/motion/power_law.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crowddynamics/core/motion/power_law.py b/crowddynamics/core/motion/power_law.py
index d651e91..1760320 100644
--- a/crowddynamics/core/motion/power_law.py
+++ b/crowddynamics/core/motion/power_law.py
@@ -146,7 +146,7 @@ def gradient_three_circle(x_rel, v_rel, r_off, a, b, d):
         numpy.ndarray:
 
     """
-    return (v_rel - (a * (x_rel + 2 * r_off) + b * v_rel) / d) / a
+    return (v_rel - (a * (x_rel + r_off) + b * v_rel) / d) / a
 
 
 @numba.jit(Tuple((f8, f8[:]))(f8[:], f8[:], f8),
@@ -334,20 +334,19 @@ def force_social_three_circle(agent, i, j):
     r_off_i = np.zeros(2)
     r_off_j = np.zeros(2)
 
-    # TODO: Fix signs
     if contact_i == 1:
         phi = agent[i]['orientation']
-        r_off_i += agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_i -= agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
     elif contact_i == 2:
         phi = agent[i]['orientation']
-        r_off_i -= agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_i += agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
 
     if contact_j == 1:
         phi = agent[j]['orientation']
-        r_off_j += agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_j -= agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
     elif contact_j == 2:
         phi = agent[j]['orientation']
-        r_off_j -= agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_j += agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
 
     x_rel = agent[i]['position'] - agent[j]['position']
     r_off = r_off_i - r_off_j
-- 
2.43.0


From f305a5784a0323dd0fe38f2cf03d745f8b31f278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 06/21] fix: euler_integrator recognises three-circle agents by
 their model, not by dtype identity

---
 crowddynamics/core/integrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/integrator.py b/crowddynamics/core/integrator.py
index efec3f1..bbf1664 100644
--- a/crowddynamics/core/integrator.py
+++ b/crowddynamics/core/integrator.py
@@ -155,7 +155,7 @@ def euler_integrator(agents, dt_min, dt_max):
     """
     dt = adaptive_timestep(agents, dt_min, dt_max)
     translational_euler(agents, dt)
-    if agents.dtype is agent_type_three_circle:
+    if is_model(agents, 'three_circle'):
         rotational_euler(agents, dt)
         shoulders(agents)
     return dt
-- 
2.43.0


From e226764e5b64bb949ca50f1d3c365bf9b08c281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 07/21] fix: obstacle_handling_continuous uses both components
 of the target direction and reads the map only inside the grid

---
 crowddynamics/core/steering/obstacle_handling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/steering/obstacle_handling.py b/crowddynamics/core/steering/obstacle_handling.py
index 8d462ff..b4e721f 100644
--- a/crowddynamics/core/steering/obstacle_handling.py
+++ b/crowddynamics/core/steering/obstacle_handling.py
@@ -85,12 +85,12 @@ def obstacle_handling_continuous(dmap_obs, dir_map_obs, direction_target,
 
     for k in range(len(indices)):
         i, j = indices[k, 0], indices[k, 1]
-        u2, v2 = direction_target[k, 1], direction_target[k, 1]
-        x = -dmap_obs[i, j]
+        u2, v2 = direction_target[k, 0], direction_target[k, 1]
 
         if not (0 <= i < n and 0 <= j < m):
             continue
 
+        x = -dmap_obs[i, j]
         if 0 < x < radius:
             # Decreasing function
             p = strength ** (x / radius)
-- 
2.43.0


From 2741405664cf73b917af20ccc04207706b840cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 08/21] fix: herding_relationship counts exactly aligned agents
 as inside the viewing angle

---
 crowddynamics/core/steering/collective_motion.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crowddynamics/core/steering/collective_motion.py b/crowddynamics/core/steering/collective_motion.py
index c8242c7..f6fcd6b 100644
--- a/crowddynamics/core/steering/collective_motion.py
+++ b/crowddynamics/core/steering/collective_motion.py
@@ -44,15 +44,14 @@ def herding_relationship(x1, x2, v1, v2, phi=np.pi / 2):
     c_i = dot(e_rel, normalize(v1))
     c_j = -dot(e_rel, normalize(v2))
 
-    # 1.0 = cos(0)
     cos_phi = np.cos(phi)
-    if cos_phi < c_i < 1.0:
-        if cos_phi < c_j < 1.0:
+    if cos_phi < c_i:
+        if cos_phi < c_j:
             return False, False
         else:
             return True, False
     else:
-        if cos_phi < c_j < 1.0:
+        if cos_phi < c_j:
             return False, True
         else:
             return True, True
-- 
2.43.0


From e7f5a5ecaf5a0b50d2e68955d0b4219ee72c68f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 09/21] fix: density_classical indexes its grid with integers
 and keeps the last row and column

---
 crowddynamics/core/quantities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index d86bfe9..99c5e0c 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -24,10 +24,10 @@ def density_classical(points, cell_size):
     density of fluids which have :math:`> 10^{18}` particles per
     :math:`\mathrm{mm}^3`.
     """
-    indices = np.floor(points / cell_size)
+    indices = np.floor(points / cell_size).astype(np.int64)
     x, y = indices[:, 0], indices[:, 1]
     x_min, y_min = x.min(), y.min()
-    shape = x.max() - x_min, y.max() - y_min
+    shape = x.max() - x_min + 1, y.max() - y_min + 1
     count = np.zeros(shape, dtype=np.int64)
     for i, j in zip(x, y):
         count[i - x_min, j - y_min] += 1
-- 
2.43.0


From 8703b6062c7f7d9c714014bd98ad9811d0c5a450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 10/21] fix: voronoi density adds the area of the point's own
 region and floors cell indices

---
 crowddynamics/core/quantities.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index 99c5e0c..e41e082 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -280,8 +280,7 @@ def _core_2(points, cell_size, area, point_region):
     Returns:
 
     """
-    # FIXME
-    indices = (points / cell_size).astype(np.int64)
+    indices = np.floor(points / cell_size).astype(np.int64)
     x, y = indices[:, 0], indices[:, 1]
     x_min, y_min = x.min(), y.min()
     shape = x.max() - x_min + 1, y.max() - y_min + 1
@@ -291,7 +290,7 @@ def _core_2(points, cell_size, area, point_region):
     for k, (i, j) in enumerate(zip(x, y)):
         index = i - x_min, j - y_min
         density[index] += 1
-        area_sum[index] += area[point_region[k]]
+        area_sum[index] += area[k]
 
     n, m = density.shape
     for i in range(n):
-- 
2.43.0


From 3ae7cb6731d682f5ec98c6bbe40c518128224944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 11/21] fix: save_npy stores the value an array has when it is
 sent

---
 crowddynamics/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 986124b..6e5e801 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -36,7 +36,7 @@ def save_npy(directory, basename):
     index = 0
     while True:
         data = yield  # numpy.ndarray
-        buffer.append(data)
+        buffer.append(np.copy(data))
 
         dump = yield  # bool
         if dump:
-- 
2.43.0


From 96ad5448d69c25ddc7d6bc56652a263d2a74fe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 12/21] fix: save_npy takes braces in directory and basename
 literally

---
 crowddynamics/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 6e5e801..cb857cd 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -31,7 +31,6 @@ def save_npy(directory, basename):
         >>> storage.send(data)
         >>> storage.send(True)  # True dumps data into file
     """
-    filepath = os.path.join(directory, basename + '_{index}.npy')
     buffer = []
     index = 0
     while True:
@@ -40,7 +39,9 @@ def save_npy(directory, basename):
 
         dump = yield  # bool
         if dump:
-            np.save(filepath.format(index=index), np.vstack(buffer))
+            filepath = os.path.join(
+                directory, '{}_{}.npy'.format(basename, index))
+            np.save(filepath, np.vstack(buffer))
             buffer.clear()
             index += 1
 
-- 
2.43.0


From 6dc3c3f60c5db6f1b35c4c76385a6adc5711db73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 13/21] fix: find_npy_files matches the whole name
 <basename>_<number>.npy

---
 crowddynamics/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index cb857cd..e73c4af 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -6,6 +6,7 @@ Data flow ::
 
 """
 import os
+import re
 from collections import Iterable, Mapping
 from io import StringIO
 import csv
@@ -56,11 +57,12 @@ def find_npy_files(directory, basename):
     Yields:
         (int, numpy.ndarray): Tuple containing (index, data)
     """
+    pattern = re.compile(re.escape(basename) + r'_([0-9]+)\.npy')
     for root, dirs, files in os.walk(directory):
         for file in files:
-            if file.startswith(basename) and file.endswith('.npy'):
-                index = int(file.lstrip(basename + '_').rstrip('.npy'))
-                yield index, os.path.join(root, file)
+            match = pattern.fullmatch(file)
+            if match:
+                yield int(match.group(1)), os.path.join(root, file)
 
 
 def load_npy(directory, basename):
-- 
2.43.0


From b251e093ee92226a80e21bf24fce81a8b7b8fee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 14/21] fix: geometries are stored as geometries, not as what
 iterating over them gives

---
 crowddynamics/io.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index e73c4af..18cae97 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -7,7 +7,7 @@ Data flow ::
 """
 import os
 import re
-from collections import Iterable, Mapping
+from collections import Mapping
 from io import StringIO
 import csv
 import json
@@ -150,23 +150,25 @@ def save_csv(directory, basename):
 def geometry_mapping(geom):
     from shapely.geometry import mapping
 
-    if isinstance(geom, Iterable):
-        return [mapping(geo) for geo in geom]
+    if geom is None or hasattr(geom, '__geo_interface__'):
+        return geom if geom is None else mapping(geom)
     elif isinstance(geom, Mapping):
         return {name: mapping(geo) for name, geo in geom.items()}
     else:
-        return mapping(geom) if geom else geom
+        return [mapping(geo) for geo in geom]
 
 
 def geometry_shape(geom):
     from shapely.geometry import shape
 
-    if isinstance(geom, Iterable):
-        return [shape(geo) for geo in geom]
+    if geom is None:
+        return geom
+    elif isinstance(geom, Mapping) and 'type' in geom:
+        return shape(geom)
     elif isinstance(geom, Mapping):
         return {name: shape(geo) for name, geo in geom.items()}
     else:
-        return shape(geom) if geom else geom
+        return [shape(geo) for geo in geom]
 
 
 def save_geometry_json(filename, geometries):
-- 
2.43.0


From 56bf6067f72b8e4a206156b7846a98e8b0c09cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 15/21] fix: save_geometry_json replaces the content of the
 file

---
 crowddynamics/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 18cae97..b3f5809 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -179,7 +179,7 @@ def save_geometry_json(filename, geometries):
         geometries (dict):
 
     """
-    with open(filename, 'a') as fp:
+    with open(filename, 'w') as fp:
         obj = {name: geometry_mapping(geom) for name, geom in
                geometries.items()}
         json.dump(obj, fp, indent=2, separators=(', ', ': '))
-- 
2.43.0


From c4ae5afc654c233bed190a1ad980291565689255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 16/21] fix: TargetReached formats its name field and tests the
 positions of the agents

---
 crowddynamics/simulation/logic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index f6dba2b..4075be4 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -374,7 +374,7 @@ class TargetReached(LogicNode):
         # We can only measure polygon targets atm
         for i, target in enumerate(self.simulation.field.targets):
             if isinstance(target, Polygon):
-                name = self.prefix.format(i)
+                name = self.prefix.format(index=i)
                 self.names.append(name)
                 self.paths.append(Path(np.asarray(target.exterior)))
                 self.reached_by.append(np.zeros(size, dtype=np.bool_))
@@ -383,5 +383,6 @@ class TargetReached(LogicNode):
     def update(self):
         # TODO: update target reached
         for name, path, reached_by in zip(self.names, self.paths, self.reached_by):
-            reached_by |= path.contains_points(self.simulation.agents.array)
+            reached_by |= path.contains_points(
+                self.simulation.agents.array['position'])
             self.simulation.data[name] = np.sum(reached_by)
-- 
2.43.0


From 1e880096b41ceadda0e00dce299969c81acd422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 17/21] fix: trait_to_type returns str for Unicode traits

---
 crowddynamics/traits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index e7f84d0..c45f917 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -68,7 +68,7 @@ def trait_to_type(trait):
         elif isinstance(trait, Bool):
             return bool
         elif isinstance(trait, Unicode):
-            raise str
+            return str
         else:
             raise InvalidValue('Trait conversion is not supported for: '
                                '{}'.format(trait))
-- 
2.43.0


From 767ff598e53fbf4623ccde36264d1d3d39dfe76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 18/21] fix: load_config rejects a configuration in which only
 some values are invalid

---
 crowddynamics/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/config.py b/crowddynamics/config.py
index 2cbdfe6..c9cea89 100644
--- a/crowddynamics/config.py
+++ b/crowddynamics/config.py
@@ -23,7 +23,7 @@ BODY_TYPES_CFG_SPEC = os.path.join(CONFIG_ROOT, 'body_types_spec.cfg')
 def load_config(infile, configspec=None):
     """Load configuration from INI file."""
     config = ConfigObj(infile=infile, configspec=configspec)
-    if configspec and not config.validate(Validator()):
+    if configspec and config.validate(Validator()) is not True:
         raise ValidationError
     return config
 
-- 
2.43.0


From d5b738e76123ad9e06ced497883c0c5dc105a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 19/21] fix: deprecated uses the code attribute of Python 3
 functions

---
 crowddynamics/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/exceptions.py b/crowddynamics/exceptions.py
index 3f25134..98f3f06 100644
--- a/crowddynamics/exceptions.py
+++ b/crowddynamics/exceptions.py
@@ -59,8 +59,8 @@ def deprecated(func):
         warnings.warn_explicit(
             "Call to deprecated function {}.".format(func.__name__),
             category=DeprecationWarning,
-            filename=func.func_code.co_filename,
-            lineno=func.func_code.co_firstlineno + 1
+            filename=func.__code__.co_filename,
+            lineno=func.__code__.co_firstlineno + 1
         )
         return func(*args, **kwargs)
     return new_func
-- 
2.43.0


From ba5dfd63cfc3c85bcd0dab4dd4b85373b613ba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:40 +0000
Subject: [PATCH 20/21] fix: the shoulders of a three-circle agent move with it
 when a placement is retried

---
 crowddynamics/simulation/agents.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 8ca55b7..70a8f56 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -318,6 +318,10 @@ class AgentType(HasTraits):
 
     array = __array__
 
+    def place(self, position):
+        """Move the whole body of the agent to position."""
+        self.position = position
+
     def overlapping(self, others) -> bool:
         """Determines if agent is overlapping with any of the agent supplied
         in other argument.
@@ -408,6 +412,11 @@ class ThreeCircle(AgentType, States, BodyType, TranslationalMotion,
         return self.position + self.r_ts * rotate270(
             unit_vector(self.orientation))
 
+    def place(self, position):
+        super().place(position)
+        self.position_ls = self._default_position_ls()
+        self.position_rs = self._default_position_rs()
+
     def overlapping(self, others):
         return overlapping_three_circles(
             others,
@@ -651,8 +660,8 @@ class Agents(AgentsBase):
 
         while index < group.size and overlaps < overlaps_max:
             new_agent = group.members[index]
-            new_agent.position = position_gen() if callable(position_gen) \
-                else next(position_gen)
+            new_agent.place(position_gen() if callable(position_gen)
+                            else next(position_gen))
 
             # Overlapping check
             neighbours = self._neighbours.nearest(new_agent.position, radius=1)
-- 
2.43.0


From e8ded18ad52a686bfc83152c69b4d6ebbdbfc97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:53 +0000
Subject: [PATCH 21/21] fix: options of Tuple traits have the default value of
 the trait

---
 crowddynamics/traits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index c45f917..ad53139 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -145,7 +145,7 @@ def trait_to_option(name, trait):
                                 type=click.Choice(list(map(str, trait.values))))
         elif isinstance(trait, Tuple):
             return click.Option(param_decls=('--' + name,),
-                                default=trait.default_value,
+                                default=trait.make_dynamic_default() or None,
                                 type=tuple(
                                     trait_to_type(t) for t in trait._traits))
         else:
-- 
2.43.0

