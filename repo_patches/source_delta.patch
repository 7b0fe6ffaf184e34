From f1de861b722cba90f37713251a41741559d5235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 01/37] fix: social force ignores past contacts when finding
 the first contact pair

A part pair whose contact lies in the past used to initialise the minimum
with a negative time, after which no positive time could replace it.
---
 crowddynamics/core/motion/power_law.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/motion/power_law.py b/crowddynamics/core/motion/power_law.py
index a189068..c5072fd 100644
--- a/crowddynamics/core/motion/power_law.py
+++ b/crowddynamics/core/motion/power_law.py
@@ -321,7 +321,7 @@ def force_social_three_circle(agent, i, j):
                 continue
 
             tau_new = (b - d) / a
-            if np.isnan(tau) or 0 < tau_new < tau:
+            if 0 < tau_new and (np.isnan(tau) or tau_new < tau):
                 contact_i, contact_j = part_i, part_j
                 tau = tau_new
                 b_min = b
-- 
2.43.0


From e2cc547c313166192a1528966d271acaeb579c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 02/37] fix: three-circle social force follows the gradient of
 the time to collision

Shoulder offsets had the wrong sign and entered the gradient twice, so the
force was not the gradient of the interaction energy of the first contact.
---
 crowddynamics/core/motion/power_law.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crowddynamics/core/motion/power_law.py b/crowddynamics/core/motion/power_law.py
index c5072fd..4e3ccfd 100644
--- a/crowddynamics/core/motion/power_law.py
+++ b/crowddynamics/core/motion/power_law.py
@@ -146,7 +146,7 @@ def gradient_three_circle(x_rel, v_rel, r_off, a, b, d):
         numpy.ndarray:
 
     """
-    return (v_rel - (a * (x_rel + 2 * r_off) + b * v_rel) / d) / a
+    return (v_rel - (a * (x_rel + r_off) + b * v_rel) / d) / a
 
 
 @numba.jit(Tuple((f8, f8[:]))(f8[:], f8[:], f8),
@@ -334,20 +334,19 @@ def force_social_three_circle(agent, i, j):
     r_off_i = np.zeros(2)
     r_off_j = np.zeros(2)
 
-    # TODO: Fix signs
     if contact_i == 1:
         phi = agent[i]['orientation']
-        r_off_i += agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_i -= agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
     elif contact_i == 2:
         phi = agent[i]['orientation']
-        r_off_i -= agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_i += agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
 
     if contact_j == 1:
         phi = agent[j]['orientation']
-        r_off_j += agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_j -= agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
     elif contact_j == 2:
         phi = agent[j]['orientation']
-        r_off_j -= agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_j += agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
 
     x_rel = agent[i]['position'] - agent[j]['position']
     r_off = r_off_i - r_off_j
-- 
2.43.0


From 4a4d62a5d5d2ccbd0a2ad251b6e72ec0ce5baccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 03/37] fix: moment arm of the second agent uses its own part
 position

---
 crowddynamics/core/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/distance.py b/crowddynamics/core/distance.py
index 681e120..1b6c634 100644
--- a/crowddynamics/core/distance.py
+++ b/crowddynamics/core/distance.py
@@ -100,7 +100,7 @@ def distance_three_circles(x0, r0, x1, r1):
                 j_min = j
 
     r_moment0 = x0[i_min] + r0[i_min] * normal - x0[0]
-    r_moment1 = x0[j_min] - r1[j_min] * normal - x1[0]
+    r_moment1 = x1[j_min] - r1[j_min] * normal - x1[0]
 
     return h_min, normal, r_moment0, r_moment1
 
-- 
2.43.0


From 762fc87bd4e54d4ddbfe85298828845ea6754b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 04/37] fix: npy storage buffers a copy of the array it was
 sent

---
 crowddynamics/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 986124b..7d4b1a9 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -36,7 +36,8 @@ def save_npy(directory, basename):
     index = 0
     while True:
         data = yield  # numpy.ndarray
-        buffer.append(data)
+        # The array may be updated in place before it is dumped
+        buffer.append(np.copy(data))
 
         dump = yield  # bool
         if dump:
-- 
2.43.0


From 42654a375df18d8df7fdf03657d73bce677e7482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 05/37] fix: npy files are found by their exact name, not by a
 prefix

---
 crowddynamics/io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 7d4b1a9..7b5cd73 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -56,11 +56,12 @@ def find_npy_files(directory, basename):
     Yields:
         (int, numpy.ndarray): Tuple containing (index, data)
     """
-    for root, dirs, files in os.walk(directory):
-        for file in files:
-            if file.startswith(basename) and file.endswith('.npy'):
-                index = int(file.lstrip(basename + '_').rstrip('.npy'))
-                yield index, os.path.join(root, file)
+    prefix, suffix = basename + '_', '.npy'
+    for file in os.listdir(directory):
+        if file.startswith(prefix) and file.endswith(suffix):
+            index = file[len(prefix):-len(suffix)]
+            if index.isdigit():
+                yield int(index), os.path.join(directory, file)
 
 
 def load_npy(directory, basename):
-- 
2.43.0


From b144b0f38f5693f2eafa542ebf9d729bd313902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 06/37] fix: geometries survive saving to and loading from json

---
 crowddynamics/io.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 7b5cd73..7aaa953 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -148,11 +148,15 @@ def save_csv(directory, basename):
 
 def geometry_mapping(geom):
     from shapely.geometry import mapping
+    from shapely.geometry.base import BaseGeometry
 
-    if isinstance(geom, Iterable):
-        return [mapping(geo) for geo in geom]
+    # Mappings and multi-part geometries are also iterable
+    if isinstance(geom, BaseGeometry):
+        return mapping(geom)
     elif isinstance(geom, Mapping):
         return {name: mapping(geo) for name, geo in geom.items()}
+    elif isinstance(geom, Iterable):
+        return [mapping(geo) for geo in geom]
     else:
         return mapping(geom) if geom else geom
 
@@ -160,10 +164,13 @@ def geometry_mapping(geom):
 def geometry_shape(geom):
     from shapely.geometry import shape
 
-    if isinstance(geom, Iterable):
-        return [shape(geo) for geo in geom]
-    elif isinstance(geom, Mapping):
+    if isinstance(geom, Mapping):
+        # GeoJSON object or dictionary of GeoJSON objects
+        if 'type' in geom:
+            return shape(geom)
         return {name: shape(geo) for name, geo in geom.items()}
+    elif isinstance(geom, Iterable):
+        return [shape(geo) for geo in geom]
     else:
         return shape(geom) if geom else geom
 
-- 
2.43.0


From b9281f9b81ae30a2473d176bd320fa11c2df63b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 07/37] fix: saving geometries replaces the json document
 instead of appending to it

---
 crowddynamics/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 7aaa953..44a2c40 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -183,7 +183,7 @@ def save_geometry_json(filename, geometries):
         geometries (dict):
 
     """
-    with open(filename, 'a') as fp:
+    with open(filename, 'w') as fp:
         obj = {name: geometry_mapping(geom) for name, geom in
                geometries.items()}
         json.dump(obj, fp, indent=2, separators=(', ', ': '))
-- 
2.43.0


From 18e9b137ef7e8df13b1b513ff8fa49133f88f8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 08/37] fix: the end marker is queued however the simulation
 process ends

---
 crowddynamics/simulation/multiagent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/simulation/multiagent.py b/crowddynamics/simulation/multiagent.py
index d434525..96b0d4e 100644
--- a/crowddynamics/simulation/multiagent.py
+++ b/crowddynamics/simulation/multiagent.py
@@ -92,7 +92,8 @@ class MultiAgentProcess(Process):
             self.logger.error(
                 'Simulation stopped to error: {}'.format(error))
             self.stop()
-        self.queue.put(self.EndProcess)
+        finally:
+            self.queue.put(self.EndProcess)
 
     @log_with(qualname=True, ignore={'self'})
     def stop(self):
-- 
2.43.0


From 02a5db45a07b537e39bc4a6f0d05dd2376b6aff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 09/37] fix: target reached node names targets by index and
 tests agent positions

---
 crowddynamics/simulation/logic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index f6dba2b..4075be4 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -374,7 +374,7 @@ class TargetReached(LogicNode):
         # We can only measure polygon targets atm
         for i, target in enumerate(self.simulation.field.targets):
             if isinstance(target, Polygon):
-                name = self.prefix.format(i)
+                name = self.prefix.format(index=i)
                 self.names.append(name)
                 self.paths.append(Path(np.asarray(target.exterior)))
                 self.reached_by.append(np.zeros(size, dtype=np.bool_))
@@ -383,5 +383,6 @@ class TargetReached(LogicNode):
     def update(self):
         # TODO: update target reached
         for name, path, reached_by in zip(self.names, self.paths, self.reached_by):
-            reached_by |= path.contains_points(self.simulation.agents.array)
+            reached_by |= path.contains_points(
+                self.simulation.agents.array['position'])
             self.simulation.data[name] = np.sum(reached_by)
-- 
2.43.0


From 548b874a8b7b21026801a39a14fdaf71c34e7fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 10/37] fix: deprecated callables can be called on python 3

---
 crowddynamics/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/exceptions.py b/crowddynamics/exceptions.py
index 3f25134..98f3f06 100644
--- a/crowddynamics/exceptions.py
+++ b/crowddynamics/exceptions.py
@@ -59,8 +59,8 @@ def deprecated(func):
         warnings.warn_explicit(
             "Call to deprecated function {}.".format(func.__name__),
             category=DeprecationWarning,
-            filename=func.func_code.co_filename,
-            lineno=func.func_code.co_firstlineno + 1
+            filename=func.__code__.co_filename,
+            lineno=func.__code__.co_firstlineno + 1
         )
         return func(*args, **kwargs)
     return new_func
-- 
2.43.0


From ff2e4aff7f5c201d50a30f8593d58ff68fa817c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 11/37] fix: parameters without default are refused when
 parsing signatures

---
 crowddynamics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/utils.py b/crowddynamics/utils.py
index aaa6174..b5aa55d 100644
--- a/crowddynamics/utils.py
+++ b/crowddynamics/utils.py
@@ -63,7 +63,7 @@ def empty_to_none(value):
 
 
 def mkspec(parameter):
-    if isinstance(parameter.default, inspect.Parameter.empty):
+    if parameter.default is inspect.Parameter.empty:
         raise InvalidType('Default argument should not be empty.')
     return ArgSpec(name=parameter.name,
                    default=empty_to_none(parameter.default),
-- 
2.43.0


From d7256c4d46f385e2ec95eac46dc56ec8ecc3275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 12/37] fix: unicode traits convert to str

---
 crowddynamics/traits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index e7f84d0..c45f917 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -68,7 +68,7 @@ def trait_to_type(trait):
         elif isinstance(trait, Bool):
             return bool
         elif isinstance(trait, Unicode):
-            raise str
+            return str
         else:
             raise InvalidValue('Trait conversion is not supported for: '
                                '{}'.format(trait))
-- 
2.43.0


From 80ecd0a2dd50a50915608b434d3c916f8ca3a52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 13/37] fix: linestring lengths are accumulated before sampling
 by them

---
 crowddynamics/core/sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/sampling.py b/crowddynamics/core/sampling.py
index 83a47a9..a80983a 100644
--- a/crowddynamics/core/sampling.py
+++ b/crowddynamics/core/sampling.py
@@ -10,10 +10,12 @@ from crowddynamics.core.geom2D import polygon_area
 @numba.jit(f8[:](f8[:, :]), nopython=True, nogil=True, cache=True)
 def linestring_length_cumsum(vertices):
     n = len(vertices) - 1
+    length = 0.0
     cumsum = np.zeros(n)
     for i in range(n):
         diff = vertices[i] - vertices[i + 1]
-        cumsum[i] = np.hypot(diff[0], diff[1])
+        length += np.hypot(diff[0], diff[1])
+        cumsum[i] = length
     return cumsum
 
 
-- 
2.43.0


From 03a7361f752669f6779dbb18c8da64044fd49990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 14/37] fix: multi-part geometries convert to arrays

---
 crowddynamics/core/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/geometry.py b/crowddynamics/core/geometry.py
index b254067..43aa29d 100644
--- a/crowddynamics/core/geometry.py
+++ b/crowddynamics/core/geometry.py
@@ -42,7 +42,7 @@ def _geom_to_array(geom: BaseGeometry):
         yield np.array([(np.nan, GeomTypes.POLYGON_SHELL)])
         yield np.asarray(geom.exterior)
     elif isinstance(geom, BaseMultipartGeometry):
-        return chain.from_iterable(map(geom_to_array, geom))
+        yield from chain.from_iterable(map(_geom_to_array, geom))
     else:
         raise TypeError
 
-- 
2.43.0


From c3a758b346f5c847d12c337fb789271412614ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 15/37] fix: holes of polygons have line segments

---
 crowddynamics/core/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/geometry.py b/crowddynamics/core/geometry.py
index 43aa29d..7198184 100644
--- a/crowddynamics/core/geometry.py
+++ b/crowddynamics/core/geometry.py
@@ -89,7 +89,9 @@ def geom_to_linesegment(geom: BaseGeometry):
     elif isinstance(geom, LineString):
         return zip(geom.coords[:-1], geom.coords[1:])
     elif isinstance(geom, Polygon):
-        return zip(geom.exterior.coords[:-1], geom.exterior.coords[1:])
+        return chain.from_iterable(
+            zip(ring.coords[:-1], ring.coords[1:])
+            for ring in chain([geom.exterior], geom.interiors))
     elif isinstance(geom, BaseMultipartGeometry):
         return chain.from_iterable(map(geom_to_linesegment, geom))
     else:
-- 
2.43.0


From f55012bfde26fbfef25be627dfbd0b8520e1f673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 16/37] fix: poisson timings leave the array of players alone

---
 crowddynamics/core/rand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/rand.py b/crowddynamics/core/rand.py
index fe83f20..1877792 100644
--- a/crowddynamics/core/rand.py
+++ b/crowddynamics/core/rand.py
@@ -115,7 +115,7 @@ def poisson_timings(players, interval, dt):
     # Compute update times for all agents.
     times = []
     indices = []
-    # TODO: check shuffle doesn't cause any side effects
+    players = np.copy(players)
     np.random.shuffle(players)
     for i in players:
         for t in poisson_clock(interval, dt):
-- 
2.43.0


From b5dd3a2c90348aedb24df4619b76d9023743dbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 17/37] fix: classical density counts points on an integer grid
 that holds all of them

---
 crowddynamics/core/quantities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index d86bfe9..99c5e0c 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -24,10 +24,10 @@ def density_classical(points, cell_size):
     density of fluids which have :math:`> 10^{18}` particles per
     :math:`\mathrm{mm}^3`.
     """
-    indices = np.floor(points / cell_size)
+    indices = np.floor(points / cell_size).astype(np.int64)
     x, y = indices[:, 0], indices[:, 1]
     x_min, y_min = x.min(), y.min()
-    shape = x.max() - x_min, y.max() - y_min
+    shape = x.max() - x_min + 1, y.max() - y_min + 1
     count = np.zeros(shape, dtype=np.int64)
     for i, j in zip(x, y):
         count[i - x_min, j - y_min] += 1
-- 
2.43.0


From b33d333cc65ba8dc246c49ccb6883d74fa8c9063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 18/37] fix: bounding box covers the dimensions of the points

---
 crowddynamics/core/quantities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index 99c5e0c..f684e0d 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -45,8 +45,8 @@ def bounding_box(points):
         numpy.ndarray: Array of [[min, max], [min, max], ...] along the
             dimensions of points.
     """
-    out = np.empty((points.ndim, 2))
-    for i in range(points.ndim):
+    out = np.empty((points.shape[1], 2))
+    for i in range(points.shape[1]):
         x = points[:, i]
         out[i, 0] = x.min()
         out[i, 1] = x.max()
-- 
2.43.0


From cba80f4157ed61d2e43aae95a5b517feceb6f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 19/37] fix: voronoi density grid spans the cells of the
 observation area

---
 crowddynamics/core/quantities.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index f684e0d..7b3bfb2 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -210,8 +210,8 @@ def density_voronoi_1(points, cell_size):
     new_regions, new_vertices = voronoi_finite_polygons_2d(vor)
 
     # Density matrix
-    (imin, imax), (jmin, jmax) = np.int64(bbox_points / cell_size)
-    density = np.zeros(shape=(imax - imin + 1, jmax - imin + 1))
+    (imin, imax), (jmin, jmax) = np.int64(np.floor(bbox_points / cell_size))
+    density = np.zeros(shape=(imax - imin + 1, jmax - jmin + 1))
 
     # Loop over Voronoi regions
     for region in new_regions:
@@ -220,9 +220,10 @@ def density_voronoi_1(points, cell_size):
         minx, miny, maxx, maxy = voronoi_cell.bounds
 
         # Loop over the cells contained by the bounding box of the Voronoi cell
-        # FIXME: index out of bounds
-        for i in range(int(minx / cell_size), int(maxx / cell_size) + 1):
-            for j in range(int(miny / cell_size), int(maxy / cell_size) + 1):
+        for i in range(int(np.floor(minx / cell_size)),
+                       int(np.floor(maxx / cell_size)) + 1):
+            for j in range(int(np.floor(miny / cell_size)),
+                           int(np.floor(maxy / cell_size)) + 1):
                 cell = rectangle(i * cell_size, (i + 1) * cell_size,
                                  j * cell_size, (j + 1) * cell_size)
                 intersection = voronoi_cell & cell
-- 
2.43.0


From 5673f0d0fdab24d3c6d915b7e528678c1ed71e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 20/37] fix: voronoi density sums the areas of the points own
 cells

---
 crowddynamics/core/quantities.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/core/quantities.py b/crowddynamics/core/quantities.py
index 7b3bfb2..3f344ef 100644
--- a/crowddynamics/core/quantities.py
+++ b/crowddynamics/core/quantities.py
@@ -281,8 +281,7 @@ def _core_2(points, cell_size, area, point_region):
     Returns:
 
     """
-    # FIXME
-    indices = (points / cell_size).astype(np.int64)
+    indices = np.floor(points / cell_size).astype(np.int64)
     x, y = indices[:, 0], indices[:, 1]
     x_min, y_min = x.min(), y.min()
     shape = x.max() - x_min + 1, y.max() - y_min + 1
@@ -292,7 +291,7 @@ def _core_2(points, cell_size, area, point_region):
     for k, (i, j) in enumerate(zip(x, y)):
         index = i - x_min, j - y_min
         density[index] += 1
-        area_sum[index] += area[point_region[k]]
+        area_sum[index] += area[k]
 
     n, m = density.shape
     for i in range(n):
-- 
2.43.0


From 3de56c51e164329b036f47ec7eedea67baded9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 21/37] fix: continuous obstacle handling uses both components
 and checks bounds first

---
 crowddynamics/core/steering/obstacle_handling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/steering/obstacle_handling.py b/crowddynamics/core/steering/obstacle_handling.py
index 8d462ff..b4e721f 100644
--- a/crowddynamics/core/steering/obstacle_handling.py
+++ b/crowddynamics/core/steering/obstacle_handling.py
@@ -85,12 +85,12 @@ def obstacle_handling_continuous(dmap_obs, dir_map_obs, direction_target,
 
     for k in range(len(indices)):
         i, j = indices[k, 0], indices[k, 1]
-        u2, v2 = direction_target[k, 1], direction_target[k, 1]
-        x = -dmap_obs[i, j]
+        u2, v2 = direction_target[k, 0], direction_target[k, 1]
 
         if not (0 <= i < n and 0 <= j < m):
             continue
 
+        x = -dmap_obs[i, j]
         if 0 < x < radius:
             # Decreasing function
             p = strength ** (x / radius)
-- 
2.43.0


From d36cf320af3ce8382d4cd38f4272f568154419db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 22/37] fix: inactive counts the agents that are outside the
 domain

---
 crowddynamics/simulation/logic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index 4075be4..8917160 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -351,10 +351,9 @@ class InsideDomain(LogicNode):
     def update(self):
         agents = self.simulation.agents.array
         new_state = self.domain_path.contains_points(agents['position'])
-        change = agents['active'] ^ new_state
         agents['active'] = new_state
 
-        self.simulation.data['inactive'] += np.sum(change)
+        self.simulation.data['inactive'] = np.sum(~new_state)
 
 
 class TargetReached(LogicNode):
-- 
2.43.0


From 36e735d55d30df5cf31e54cdfa1d859d96777987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 23/37] fix: agents that could not be placed leave no rows
 behind

---
 crowddynamics/simulation/agents.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 8ca55b7..d1de0b7 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -672,9 +672,8 @@ class Agents(AgentsBase):
             self.index += 1
             index += 1
 
-        # TODO: remove agents that didn't fit from self.array
-        if self.index + 1 < self.array.size:
-            pass
+        # Remove agents that didn't fit from self.array
+        self.array = self.array[:self.index]
 
         # Array should remain contiguous
         assert self.array.flags.c_contiguous
-- 
2.43.0


From c5f0a4aa69ea1c18bbff4453b44cdd32ec3e213b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 24/37] fix: shoulders of a three-circle agent follow its
 position and orientation

---
 crowddynamics/simulation/agents.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index d1de0b7..57363d3 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -408,6 +408,11 @@ class ThreeCircle(AgentType, States, BodyType, TranslationalMotion,
         return self.position + self.r_ts * rotate270(
             unit_vector(self.orientation))
 
+    @observe('position', 'orientation', 'r_ts')
+    def _observe_shoulders(self, change):
+        self.position_ls = self._default_position_ls()
+        self.position_rs = self._default_position_rs()
+
     def overlapping(self, others):
         return overlapping_three_circles(
             others,
-- 
2.43.0


From 5673dc795a5c0e2cede2301a9ac11f72afc45fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 25/37] fix: attributes of an agent group are drawn once per
 member

---
 crowddynamics/simulation/agents.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 57363d3..5742513 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -594,8 +594,15 @@ class AgentGroup(HasTraits):
         Instance(AgentType),
         help='')
 
+    _config = (0, None, None)
+
     @observe('size', 'agent_type', 'attributes')
     def _observe_members(self, change):
+        # Several notifications can be held for one configuration
+        config = (self.size, self.agent_type, self.attributes)
+        if all(a is b for a, b in zip(config, self._config)):
+            return
+        self._config = config
         if self.size > 0 and self.attributes is not None and self.agent_type is not None:
             if isinstance(self.attributes, Collection):
                 self.members = [self.agent_type(**a) for a in self.attributes]
-- 
2.43.0


From 52a9263440825b325f8affb5b0d61f2574f14ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:32 +0000
Subject: [PATCH 26/37] fix: cached maps of a field are dropped when its
 geometry changes

---
 crowddynamics/simulation/field.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index 3671ab1..fd619d2 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -3,7 +3,7 @@ from functools import lru_cache
 import numpy as np
 from shapely.geometry import Polygon
 from shapely.geometry.base import BaseGeometry
-from traitlets import Instance, List, validate
+from traitlets import Instance, List, observe, validate
 
 from crowddynamics.core.geometry import union
 from crowddynamics.core.sampling import polygon_sample
@@ -84,9 +84,16 @@ class Field(FieldBase):
         Instance(BaseGeometry),
         help='List of spawns')
 
-    # TODO: invalidate caches if field changes?
     # TODO: implement direction and distance map as lazy properties
 
+    @observe('domain', 'obstacles', 'targets')
+    def _observe_geometry(self, change):
+        """Maps of the previous geometry are not valid anymore"""
+        Field.meshgrid.cache_clear()
+        Field.shortest_path_target.cache_clear()
+        Field.direction_map_obstacles.cache_clear()
+        Field.navigation_to_target.cache_clear()
+
     @validate('domain')
     def _valid_domain(self, proposal):
         value = proposal['value']
-- 
2.43.0


From 0d7dce88bc8530aa4785bca98075b9156a4be879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:32 +0000
Subject: [PATCH 27/37] fix: fields without obstacles can be navigated

---
 crowddynamics/core/steering/navigation.py    | 2 ++
 crowddynamics/core/steering/quickest_path.py | 4 ++++
 crowddynamics/simulation/field.py            | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/crowddynamics/core/steering/navigation.py b/crowddynamics/core/steering/navigation.py
index 7d81d77..9d3848c 100644
--- a/crowddynamics/core/steering/navigation.py
+++ b/crowddynamics/core/steering/navigation.py
@@ -47,6 +47,8 @@ def static_potential(domain, targets, obstacles,
 
     dir_map_targets, dmap_targets = shortest_path(mgrid, domain, targets,
                                                   obstacles, radius)
+    if obstacles is None:
+        return mgrid, dmap_targets, dir_map_targets
     dir_map_obs, dmap_obs = direction_map_obstacles(mgrid, obstacles)
 
     # Combines two direction maps in a way that agents do not run into a wall
diff --git a/crowddynamics/core/steering/quickest_path.py b/crowddynamics/core/steering/quickest_path.py
index 2895773..5b67245 100644
--- a/crowddynamics/core/steering/quickest_path.py
+++ b/crowddynamics/core/steering/quickest_path.py
@@ -183,6 +183,10 @@ def fill_missing(mask, x, y, u, v):
 
 def shortest_path(mgrid, domain, targets, obstacles, buffer_radius):
     """Vector field guiding towards targets."""
+    if obstacles is None:
+        dmap_targets = distance_map(mgrid, targets, None)
+        return direction_map(dmap_targets), dmap_targets
+
     obstacles_buffered = obstacles.buffer(buffer_radius).intersection(domain)
 
     dmap_targets = distance_map(mgrid, targets, obstacles_buffered)
diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index fd619d2..e2bae54 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -165,6 +165,8 @@ class Field(FieldBase):
             raise CrowdDynamicsException('No targets are set.')
 
         dir_map_targets, dmap_targets = self.shortest_path_target(step, index, radius)
+        if self.obstacles is None:
+            return self.meshgrid(step), dmap_targets, dir_map_targets
         dir_map_obs, dmap_obs = self.direction_map_obstacles(step)
         dir_map = obstacle_handling(dmap_obs, dir_map_obs, dir_map_targets,
                                     radius, strength)
-- 
2.43.0


From 30293b6d0670d09787eb8e6ba1492eda0a42c494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:32 +0000
Subject: [PATCH 28/37] fix: simulations are imported from the directory that
 was listed

---
 crowddynamics/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index ecc7745..6b69728 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -27,7 +27,8 @@ def import_simulations(dir_path='.'):
     for path in os.listdir(dir_path):
         base, ext = os.path.splitext(path)
         if ext == '.py':
-            d.update(import_subclasses(path, MultiAgentSimulation))
+            d.update(import_subclasses(os.path.join(dir_path, path),
+                                       MultiAgentSimulation))
     return d
 
 
-- 
2.43.0


From f2ffd0aa31880a7f90081118f6bb4ebeb9250868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 29/37] fix: every simulation command runs its own simulation
 with its options

---
 crowddynamics/cli.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index 6b69728..92a8828 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -71,6 +71,16 @@ def run(context, loglevel, num):
     context.obj = dict(num=num)
 
 
+def simulation_callback(simulation_cls):
+    """Callback that runs simulations set up with the command's options"""
+    @click.pass_obj
+    def callback(obj, **options):
+        for _ in range(obj['num']):
+            simulation_cls(**options).run()
+
+    return callback
+
+
 def simulation_commands():
     """Make commands simulations imported from python files in current working 
     directory."""
@@ -78,7 +88,7 @@ def simulation_commands():
     for simulation_name, simulation_cls in simulations.items():
         # New command
         command = click.Command(
-            simulation_name, callback=lambda: simulation_cls().run())
+            simulation_name, callback=simulation_callback(simulation_cls))
 
         # Add the command into run group
         run.add_command(command)
-- 
2.43.0


From a99d3e8aa5b3b76bb3d2c7520cc6e1e275e254db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 30/37] fix: log level choices are names and the chosen one is
 applied

---
 crowddynamics/cli.py     | 3 +--
 crowddynamics/logging.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index 92a8828..7e6600e 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -1,5 +1,4 @@
 """Command-line interface for running crowddynamics."""
-import logging
 import os
 from collections import OrderedDict
 from pprint import pformat
@@ -60,7 +59,7 @@ def concat_npy(directory, basename):
 
 @main.group(chain=True)
 @click.option('--loglevel', type=click.Choice(LOGLEVELS),
-              default=logging.INFO,
+              default='INFO',
               help='Choices for setting logging level.')
 @click.option('--num', type=int, default=1,
               help='Number of simulations to run.')
diff --git a/crowddynamics/logging.py b/crowddynamics/logging.py
index cf3aa2d..93af751 100644
--- a/crowddynamics/logging.py
+++ b/crowddynamics/logging.py
@@ -7,8 +7,6 @@ import loggingtools
 from crowddynamics.config import LOG_CFG
 
 LOGLEVELS = [
-    logging.CRITICAL, logging.FATAL, logging.ERROR, logging.WARNING,
-    logging.WARN, logging.INFO, logging.DEBUG, logging.NOTSET,
     'CRITICAL', 'FATAL', 'ERROR', 'WARNING', 'WARN', 'INFO', 'DEBUG', 'NOTSET'
 ]
 
@@ -51,6 +49,7 @@ def user_info():
 
 def setup_logging(loglevel=logging.INFO, log_cfg=LOG_CFG):
     loggingtools.setup_logging(log_cfg, '.logs')
+    logging.getLogger('crowddynamics').setLevel(loglevel)
     format_numpy()
     format_pandas()
     user_info()
-- 
2.43.0


From 63411b4cb7b4d55647c4a94c52b33a514fd8f53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 31/37] fix: agents heading straight towards each other are not
 heading away

---
 crowddynamics/core/steering/collective_motion.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crowddynamics/core/steering/collective_motion.py b/crowddynamics/core/steering/collective_motion.py
index c8242c7..f6fcd6b 100644
--- a/crowddynamics/core/steering/collective_motion.py
+++ b/crowddynamics/core/steering/collective_motion.py
@@ -44,15 +44,14 @@ def herding_relationship(x1, x2, v1, v2, phi=np.pi / 2):
     c_i = dot(e_rel, normalize(v1))
     c_j = -dot(e_rel, normalize(v2))
 
-    # 1.0 = cos(0)
     cos_phi = np.cos(phi)
-    if cos_phi < c_i < 1.0:
-        if cos_phi < c_j < 1.0:
+    if cos_phi < c_i:
+        if cos_phi < c_j:
             return False, False
         else:
             return True, False
     else:
-        if cos_phi < c_j < 1.0:
+        if cos_phi < c_j:
             return False, True
         else:
             return True, True
-- 
2.43.0


From 35a5da35db868af3d006d24761a776ecf3bab0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:48 +0000
Subject: [PATCH 32/37] fix: forces of the movement validation are integrated
 before they are reset

---
 crowddynamics/examples/validation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/examples/validation.py b/crowddynamics/examples/validation.py
index bad0434..c08b59c 100644
--- a/crowddynamics/examples/validation.py
+++ b/crowddynamics/examples/validation.py
@@ -40,8 +40,9 @@ class TestMovement(MultiAgentSimulation):
 
     @default('logic')
     def _default_logic(self):
-        return Reset(self) << Integrator(self) << Adjusting(
-            self) << Orientation(self)
+        return Reset(self) << (
+                Integrator(self) << (
+                    Adjusting(self) << Orientation(self)))
 
     @default('field')
     def _default_field(self):
-- 
2.43.0


From 828bf3d3c8cd7000b21115a17972b6f37c1fbdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:48 +0000
Subject: [PATCH 33/37] fix: the domain around a pillar in the middle contains
 the pillar

---
 crowddynamics/examples/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/examples/fields.py b/crowddynamics/examples/fields.py
index 1f30b9a..c578972 100644
--- a/crowddynamics/examples/fields.py
+++ b/crowddynamics/examples/fields.py
@@ -293,8 +293,8 @@ class PillarInTheMiddle(Field):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
-        domain = rectangle(self.width / 2, self.height / 2,
-                           self.width / 2, self.height / 2)
+        domain = rectangle(-self.width / 2, -self.height / 2,
+                           self.width, self.height)
         obstacles = Point(0, 0).buffer(self.radius_pillar)
 
         self.domain = domain
-- 
2.43.0


From 98506b26a5b542cef4a724b75251701fc9f58087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:43 +0000
Subject: [PATCH 34/37] fix: the installed command offers the simulations of
 the directory

---
 crowddynamics/cli.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index 7e6600e..ccf5f31 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -35,7 +35,7 @@ def import_simulations(dir_path='.'):
                   "crowd simulations.".format(version=__version__))
 @click.version_option(__version__)
 def main():
-    pass
+    simulation_commands()
 
 
 @main.command('list')
@@ -98,5 +98,4 @@ def simulation_commands():
 
 
 if __name__ == "__main__":
-    simulation_commands()
     main()
-- 
2.43.0


From 2fddb961e78b3ce6456be4781a329a1569e01f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:04 +0000
Subject: [PATCH 35/37] fix: configurations with some invalid values are
 refused

---
 crowddynamics/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/config.py b/crowddynamics/config.py
index 2cbdfe6..1e71e68 100644
--- a/crowddynamics/config.py
+++ b/crowddynamics/config.py
@@ -23,7 +23,8 @@ BODY_TYPES_CFG_SPEC = os.path.join(CONFIG_ROOT, 'body_types_spec.cfg')
 def load_config(infile, configspec=None):
     """Load configuration from INI file."""
     config = ConfigObj(infile=infile, configspec=configspec)
-    if configspec and not config.validate(Validator()):
+    # If only some of the values are invalid the result is a dictionary
+    if configspec and config.validate(Validator()) is not True:
         raise ValidationError
     return config
 
-- 
2.43.0


From 432999e2c8211b5788278b14deb926a9a5e6b9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:59 +0000
Subject: [PATCH 36/37] Revert "fix: the domain around a pillar in the middle
 contains the pillar"

This reverts commit 828bf3d3c8cd7000b21115a17972b6f37c1fbdca.
---
 crowddynamics/examples/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/examples/fields.py b/crowddynamics/examples/fields.py
index c578972..1f30b9a 100644
--- a/crowddynamics/examples/fields.py
+++ b/crowddynamics/examples/fields.py
@@ -293,8 +293,8 @@ class PillarInTheMiddle(Field):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
-        domain = rectangle(-self.width / 2, -self.height / 2,
-                           self.width, self.height)
+        domain = rectangle(self.width / 2, self.height / 2,
+                           self.width / 2, self.height / 2)
         obstacles = Point(0, 0).buffer(self.radius_pillar)
 
         self.domain = domain
-- 
2.43.0


From 12ebcf1876a6acc89345c8986037d02720f470d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:59 +0000
Subject: [PATCH 37/37] Revert "fix: forces of the movement validation are
 integrated before they are reset"

This reverts commit 35a5da35db868af3d006d24761a776ecf3bab0e3.
---
 crowddynamics/examples/validation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/examples/validation.py b/crowddynamics/examples/validation.py
index c08b59c..bad0434 100644
--- a/crowddynamics/examples/validation.py
+++ b/crowddynamics/examples/validation.py
@@ -40,9 +40,8 @@ class TestMovement(MultiAgentSimulation):
 
     @default('logic')
     def _default_logic(self):
-        return Reset(self) << (
-                Integrator(self) << (
-                    Adjusting(self) << Orientation(self)))
+        return Reset(self) << Integrator(self) << Adjusting(
+            self) << Orientation(self)
 
     @default('field')
     def _default_field(self):
-- 
2.43.0

