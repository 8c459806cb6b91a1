From f3c0d8c5129d6f4c5031302a3d1974155e9544ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:22 +0000
Subject: [PATCH 01/93] fix: element ids restart with every run and are
 independent between containers

---
 py_gnome/gnome/spill_container.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py_gnome/gnome/spill_container.py b/py_gnome/gnome/spill_container.py
index a7332e1..9f3ad8d 100644
--- a/py_gnome/gnome/spill_container.py
+++ b/py_gnome/gnome/spill_container.py
@@ -7,6 +7,7 @@ set of arrays. The spills themselves provide some of the arrays themselves
 (adding more each time LEs are released).
 """
 
+import copy
 import os
 
 import numpy as np
@@ -825,6 +826,11 @@ class SpillContainer(AddLogger, SpillContainerData):
                 s.prepare_for_model_run(time_step)
         ats = default_array_types.copy()
         ats.update(array_types)
+        # initial_value of these is updated as elements are released. The
+        # array_types are shared globally, so use a copy: the ids of a new run
+        # start from 0 and do not depend on any other container or earlier run
+        for name in ('id', 'spill_num'):
+            ats[name] = copy.copy(ats[name])
         self._array_types = ats
 
         # if self._substances_spills is None:
-- 
2.43.0


From ffb75271bce8a876af9ccd65da829c89d4bb21ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:19 +0000
Subject: [PATCH 02/93] fix: shortening the duration of a backwards run rewinds
 it, lengthening does not

---
 py_gnome/gnome/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 757e1cd..63933f8 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -628,7 +628,7 @@ class Model(GnomeId):
 
     @duration.setter
     def duration(self, duration):
-        if duration < self._duration:
+        if abs(duration) < abs(self._duration):
             # only need to rewind if shorter than it was...
             # fixme: actually, only need to rewind if current model time
             # is beyond new time...
-- 
2.43.0


From e525fe072818268fa17da5abf322dabcbdd024ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:52 +0000
Subject: [PATCH 03/93] fix: rewinding a point/line or polygon release forgets
 the volume released by the previous run

---
 py_gnome/gnome/spills/release.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index a4a443d..af132ee 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -668,10 +668,7 @@ class PointLineRelease(Release):
                                         variables=[lon_ts, lat_ts, z_ts])
 
     def rewind(self):
-        self._prepared = False
-        self._mass_per_le = 0
-        self._release_ts = None
-        self._pos_ts = None
+        super(PointLineRelease, self).rewind()
 
     def prepare_for_model_run(self, ts):
         super(PointLineRelease, self).prepare_for_model_run(ts)
@@ -888,12 +885,9 @@ class PolygonRelease(Release):
         return [geo_routines.geo_area_of_polygon(p) for p in self.polygons]
 
     def rewind(self):
-        self._prepared = False
-        self._mass_per_le = 0
-        self._release_ts = None
+        super(PolygonRelease, self).rewind()
         self._tris = None
         self._weights = None
-        #self._pos_ts = None
 
     def get_polys_as_tris(self, polys, weights=None):
         #decomposes a
-- 
2.43.0


From 0d04e39f4a92f2790265888428627520d7a27db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:20 +0000
Subject: [PATCH 04/93] fix: point/line and subsurface releases honour
 num_per_timestep

---
 py_gnome/gnome/spills/release.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index af132ee..a7673a6 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -288,7 +288,7 @@ class Release(GnomeId):
             method referenced by num_elements_to_release
         '''
         self._num_per_timestep = val
-        if val is not None or val < 0:
+        if val is not None:
             self._num_elements = None
 
     @property
@@ -571,6 +571,7 @@ class PointLineRelease(Release):
         super(PointLineRelease, self).__init__(release_time=release_time,
                                                end_release_time=end_release_time,
                                                num_elements=num_elements,
+                                               num_per_timestep=num_per_timestep,
                                                release_mass = release_mass,
                                                **kwargs)
 
@@ -1445,6 +1446,7 @@ class SubsurfaceRelease(PointLineRelease):
         super(SubsurfaceRelease, self).__init__(release_time=release_time,
                                                end_release_time=end_release_time,
                                                num_elements=num_elements,
+                                               num_per_timestep=num_per_timestep,
                                                release_mass = release_mass,
                                                start_position = start_position,
                                                end_position = end_position,
-- 
2.43.0


From 664c9490ee22bec83c741e3d5d9b8864cedaa322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:56 +0000
Subject: [PATCH 05/93] fix: a backwards run releases elements when it reaches
 the release time, not at its start

---
 py_gnome/gnome/spills/release.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index a7673a6..e694809 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -249,6 +249,7 @@ class Release(GnomeId):
 
     def rewind(self):
         self._prepared = False
+        self._run_backwards = False
         self._mass_per_le = 0
         self._release_ts = None
         self._pos_ts = None
@@ -401,6 +402,15 @@ class Release(GnomeId):
                                               time=t,
                                               data=np.linspace(0, max_release, num_ts + 1).astype(int))
 
+    def _is_before_release(self, current_time):
+        '''
+        True if a run does not get to release_time until after current_time.
+        In a backwards run the times later than release_time come first.
+        '''
+        if self._run_backwards:
+            return current_time > self.release_time
+        return current_time < self.release_time
+
     def num_elements_after_time(self, current_time):
         '''
         Returns the number of elements expected to exist at current_time.
@@ -410,7 +420,7 @@ class Release(GnomeId):
         '''
         if not self._prepared:
             return 0
-        if current_time < self.release_time:
+        if self._is_before_release(current_time):
             return 0
         return int(math.ceil(self._release_ts.at(None, current_time, extrapolate=True)))
 
@@ -427,6 +437,7 @@ class Release(GnomeId):
             raise ValueError('Not enough LEs: Number of LEs must at least \
                 be equal to the number of timesteps in the release')
 
+        self._run_backwards = ts < 0
         num_ts = self.get_num_release_time_steps(ts)
         max_release = 0
         if self.num_per_timestep is not None:
@@ -686,7 +697,7 @@ class PointLineRelease(Release):
         # if time_step == 0:
         #     time_step = 1  # to deal with initializing position in instantaneous release case
         if self.release_duration == 0 and start_time != end_time: # special case for instantaneous spill with release after model start
-            if self.release_time <= end_time and self.release_time>=start_time:
+            if min(start_time, end_time) <= self.release_time <= max(start_time, end_time):
                  start_time = end_time = self.release_time
         if start_time == end_time:
             end_time += timedelta(seconds=1)
@@ -1086,7 +1097,7 @@ class GridRelease(Release):
         '''
         if not self._prepared:
             return 0
-        if current_time < self.release_time:
+        if self._is_before_release(current_time):
             return 0
         else:
             return self.num_elements
-- 
2.43.0


From 34fa97dd7917637a37c5ad28516e0e6d5467e0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:14 +0000
Subject: [PATCH 06/93] fix: OrderedCollection replaces by position after a
 removal and slices like a list

---
 py_gnome/gnome/utilities/orderedcollection.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/py_gnome/gnome/utilities/orderedcollection.py b/py_gnome/gnome/utilities/orderedcollection.py
index 0bfc136..0cc5968 100644
--- a/py_gnome/gnome/utilities/orderedcollection.py
+++ b/py_gnome/gnome/utilities/orderedcollection.py
@@ -137,8 +137,7 @@ class OrderedCollection(object):
                             f'expected {self.dtype}, got {type(new_elem)}')
 
         if isinstance(ident, int):
-            l__key = self._s_id(self._elems[ident])
-            idx = ident
+            l__key = self._s_id(self[ident])
         else:
             if ident in self._d_index:
                 l__key = ident
@@ -146,7 +145,7 @@ class OrderedCollection(object):
                 raise KeyError('Cannot find object by this "id" in '
                                'OrderedCollection')
 
-            idx = self._d_index[l__key]
+        idx = self._d_index[l__key]
 
         # found existing object
         del self._d_index[l__key]
@@ -202,10 +201,7 @@ class OrderedCollection(object):
 
     def _slice_attr(self, ident):
         'support for slice operations like a list'
-        start = (ident.start, 0)[ident.start is None]
-        stop = (ident.stop, len(self))[ident.stop is None]
-        step = (ident.step, 1)[ident.step is None]
-        return (start, stop, step)
+        return ident.indices(len(self))
 
     def __getitem__(self, ident):
         'slicing works just like it does for lists'
-- 
2.43.0


From 77cf8f321b984bf7298c73ce66603d51cc29b75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:40 +0000
Subject: [PATCH 07/93] fix: oil that leaves the map is not weathered any more
 in that step, so it is not counted twice

---
 py_gnome/gnome/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 63933f8..8ec2b3d 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1025,6 +1025,11 @@ class Model(GnomeId):
             on_land_mask = sc['status_codes'] == oil_status.on_land
             sc['fate_status'][on_land_mask] = fate.non_weather
 
+            # these left the map: their mass is already accounted for in
+            # 'off_maps', so nothing may be taken from them any more
+            tbr_mask = sc['status_codes'] == oil_status.to_be_removed
+            sc['fate_status'][tbr_mask] = fate.non_weather
+
             w_mask = ((sc['status_codes'] == oil_status.in_water)
                       & ~(sc['fate_status'] & fate.skim == fate.skim)
                       & ~(sc['fate_status'] & fate.burn == fate.burn)
-- 
2.43.0


From 47b1ffb9e656559d00c7b7de380d77ee426700f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:44 +0000
Subject: [PATCH 08/93] fix: cleanup operations remove the requested amount
 when their window lies inside a time step or steps are split

---
 py_gnome/gnome/weatherers/cleanup.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/py_gnome/gnome/weatherers/cleanup.py b/py_gnome/gnome/weatherers/cleanup.py
index 7ba87ee..2d2fad2 100644
--- a/py_gnome/gnome/weatherers/cleanup.py
+++ b/py_gnome/gnome/weatherers/cleanup.py
@@ -61,16 +61,12 @@ class RemoveMass(object):
         if not self.active:
             return
 
-        self._timestep = time_step
-        dt = timedelta(seconds=time_step)
+        # the part of this (sub)step in which the object is active
+        start = max(model_time, self.active_range[0])
+        stop = min(model_time + timedelta(seconds=time_step),
+                   self.active_range[1])
 
-        if (model_time < self.active_range[0]):
-            self._timestep = time_step - (self.active_range[0] -
-                                          model_time).total_seconds()
-
-        if (self.active_range[1] < model_time + dt):
-            self._timestep = (self.active_range[1] -
-                              model_time).total_seconds()
+        self._timestep = max((stop - start).total_seconds(), 0.0)
 
     def prepare_for_model_step(self, sc, time_step, model_time):
         '''
@@ -348,6 +344,8 @@ class Skimmer(CleanUpBase):
         if not self.active or len(sc) == 0 or not sc.substance.is_weatherable:
             return
 
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types, fate_status='skim'):
 
             if len(data['mass']) == 0:
@@ -692,6 +690,8 @@ class Burn(CleanUpBase):
         if not self.active or len(sc) == 0 or not sc.substance.is_weatherable:
             return
 
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types, fate_status='burn'):
             if len(data['mass']) == 0:
                 return
@@ -857,6 +857,8 @@ class ChemicalDispersion(CleanUpBase):
         if not self.active or len(sc) == 0 or not sc.substance.is_weatherable:
             return
 
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types, fate_status='disperse'):
             if len(data['mass']) == 0:
                 continue
-- 
2.43.0


From 3cc5ab9f0cdc07acb01023a9c39dbe28c66a8489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:44 +0000
Subject: [PATCH 09/93] fix: manual beaching works when it starts within a time
 step or steps are split

---
 py_gnome/gnome/weatherers/manual_beaching.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/weatherers/manual_beaching.py b/py_gnome/gnome/weatherers/manual_beaching.py
index b95f09a..42fd614 100644
--- a/py_gnome/gnome/weatherers/manual_beaching.py
+++ b/py_gnome/gnome/weatherers/manual_beaching.py
@@ -224,7 +224,8 @@ class Beaching(RemoveMass, Weatherer):
         # Expect the timestep to be much smaller than the delta time between
         # timeseries, however, let's not make this assumption since it can't be
         # enforced
-        t_int = np.where(np.datetime64(model_time) >=
+        start_time = max(model_time, self.active_range[0])
+        t_int = np.where(np.datetime64(start_time) >=
                          self._timeseries['time'])[0][-1]
 
         # Say the time for timeseries is given as follows:
@@ -245,9 +246,8 @@ class Beaching(RemoveMass, Weatherer):
         # The logic will also handle the case where the time interval straddles
         # multiple rates. This is not expected but the logic should work.
         time_remain = time_step
-        start_time = model_time
         rm_mass = 0.0
-        while time_remain > 0:
+        while time_remain > 0 and t_int < len(self._rate):
             dt_for_curr_rate = \
                 (self._timeseries['time'][t_int + 1].astype(datetime) -
                  start_time).total_seconds()
@@ -268,6 +268,8 @@ class Beaching(RemoveMass, Weatherer):
         if not self.active or len(sc) == 0:
             return
 
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types):
             if len(data['mass']) == 0:
                 continue
-- 
2.43.0


From 21c4c7165141d51de71226e7010a5463bc01c0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:18 +0000
Subject: [PATCH 10/93] fix: land check on the coarse layers could miss land
 that the path crosses

A line of coarse raster cells can cut a corner that the line of pixels goes
through, and div() rounds towards zero for pixels off the raster, so elements
went through islands and headlands. Use the box of coarse cells spanned by the move to rule out
a hit.
---
 py_gnome/gnome/cy_gnome/cy_land_check.pyx | 81 +++++++++++++++--------
 1 file changed, 54 insertions(+), 27 deletions(-)

diff --git a/py_gnome/gnome/cy_gnome/cy_land_check.pyx b/py_gnome/gnome/cy_gnome/cy_land_check.pyx
index 847ad1d..5656b1d 100644
--- a/py_gnome/gnome/cy_gnome/cy_land_check.pyx
+++ b/py_gnome/gnome/cy_gnome/cy_land_check.pyx
@@ -12,7 +12,7 @@ from gnome.utilities.geometry.cy_point_in_polygon import points_in_poly
 cimport numpy as cnp
 from cpython.mem cimport PyMem_Malloc, PyMem_Free
 from libc.stdint cimport int16_t, int32_t, uint8_t, uint32_t
-from libc.stdlib cimport abs, div, div_t
+from libc.stdlib cimport abs
 from libcpp cimport bool
 
 cimport gnome.cy_gnome.type_defs as type_defs
@@ -171,6 +171,33 @@ cdef bool c_find_first_pixel(uint8_t* grid,
 
 
 
+cdef bool c_box_has_land(uint8_t* grid,
+                         int32_t m,
+                         int32_t n,
+                         int32_t x0,
+                         int32_t y0,
+                         int32_t x1,
+                         int32_t y1,
+                         ):
+    """
+    returns True if there is any land in the box of cells spanned by the
+    two end points.
+
+    Used for the coarse layers: a line of coarse cells can cut a corner that
+    the line of pixels goes through, so it can't be used to rule out a hit.
+    """
+    cdef int32_t i, j, i0, i1, j0, j1
+
+    i0, i1 = max(min(x0, x1), 0), min(max(x0, x1), m - 1)
+    j0, j1 = max(min(y0, y1), 0), min(max(y0, y1), n - 1)
+
+    for i in range(i0, i1 + 1):
+        for j in range(j0, j1 + 1):
+            if grid[i * n + j] != 0:
+                return True
+    return False
+
+
 def find_first_pixel(grid, pt1, pt2):
     """
     This finds the first non-zero pixel that is encountered when following
@@ -304,12 +331,10 @@ def check_land_layers(grid_layers,
         This version will look through multiple layers of raster map
 
         """
-        cdef int32_t  prev_x, prev_y, hit_x, hit_y, cur_ratio, layer, coarse_pos_x, num_ratios
+        cdef int32_t  prev_x, prev_y, hit_x, hit_y, cur_ratio, layer, num_ratios
         cdef uint32_t i, num_le
         cdef int32_t m, n
         cdef bool did_hit
-        cdef int32_t* coarse_pos = <int32_t*> PyMem_Malloc (2*sizeof(int32_t))
-        cdef int32_t* coarse_end = <int32_t*> PyMem_Malloc (2*sizeof(int32_t))
 
         num_ratios = grid_ratios.shape[0]
         cdef uint8_t** dataptrs = <uint8_t**> PyMem_Malloc(num_ratios*sizeof(uint8_t *))
@@ -334,23 +359,31 @@ def check_land_layers(grid_layers,
             #begin the walk. If a hit is registered on the current grid, drop down one level and continue the walk.
             #If a hit is registered on the lowest level, then LE has landed.
             while True:
-                coarse_pos[0] = div(positions[i,0], grid_ratios[layer]).quot
-                coarse_pos[1] = div(positions[i,1], grid_ratios[layer]).quot
-                coarse_end[0] = div(end_positions[i,0], grid_ratios[layer]).quot
-                coarse_end[1] = div(end_positions[i,1], grid_ratios[layer]).quot
-                cur_ratio = grid_ratios[layer]
-                did_hit = c_find_first_pixel(dataptrs[layer],
-                                         widths[layer],
-                                         heights[layer],
-                                         coarse_pos[0],
-                                         coarse_pos[1],
-                                         coarse_end[0],
-                                         coarse_end[1],
-                                         &prev_x,
-                                         &prev_y,
-                                         &hit_x,
-                                         &hit_y,
-                                         )
+                if layer < num_ratios - 1:
+                    cur_ratio = grid_ratios[layer]
+                    # note: // rounds down (div() does not), as it should
+                    #       for locations off the grid
+                    did_hit = c_box_has_land(dataptrs[layer],
+                                             widths[layer],
+                                             heights[layer],
+                                             positions[i,0] // cur_ratio,
+                                             positions[i,1] // cur_ratio,
+                                             end_positions[i,0] // cur_ratio,
+                                             end_positions[i,1] // cur_ratio,
+                                             )
+                else:
+                    did_hit = c_find_first_pixel(dataptrs[layer],
+                                                 widths[layer],
+                                                 heights[layer],
+                                                 positions[i,0],
+                                                 positions[i,1],
+                                                 end_positions[i,0],
+                                                 end_positions[i,1],
+                                                 &prev_x,
+                                                 &prev_y,
+                                                 &hit_x,
+                                                 &hit_y,
+                                                 )
                 if did_hit:
                     if layer == num_ratios - 1:
                         # hit on the lowest layer (confirmed land hit)
@@ -363,18 +396,12 @@ def check_land_layers(grid_layers,
                     else:
                         # possible hit, go down a layer and try again
                         layer += 1
-                        coarse_pos[0] = div(positions[i,0], grid_ratios[layer]).quot
-                        coarse_pos[1] = div(positions[i,1], grid_ratios[layer]).quot
-                        coarse_end[0] = div(end_positions[i,0], grid_ratios[layer]).quot
-                        coarse_end[1] = div(end_positions[i,1], grid_ratios[layer]).quot
                 else:
                     # didn't hit land -- can move the LE
                     positions[i, 0] = end_positions[i, 0]
                     positions[i, 1] = end_positions[i, 1]
                     break
 
-        PyMem_Free(coarse_pos)
-        PyMem_Free(coarse_end)
         PyMem_Free(dataptrs)
         PyMem_Free(widths)
         PyMem_Free(heights)
-- 
2.43.0


From 522c6a067d2767ac764df195deaf8bef03010c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:18 +0000
Subject: [PATCH 11/93] fix: an element released on land refloated to (0, 0)

It has no last water position, so it refloats from where it is.
---
 py_gnome/gnome/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 8ec2b3d..a9a2b13 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1261,6 +1261,10 @@ class Model(GnomeId):
                 # for sc in self.spills.items():
                 on_land = self.map.on_land_points(sc['positions'][-num_released:])
                 sc['status_codes'][-num_released:][on_land] = oil_status.on_land
+                # these have never been in the water: if they refloat, they
+                # do it from where they are.
+                sc['last_water_positions'][-num_released:][on_land] = \
+                    sc['positions'][-num_released:][on_land]
 
                 for item in self.weatherers:
                     if item.on:
-- 
2.43.0


From 279e0ce1bb0d8199cc4a851783b2564c7bf536bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:00 +0000
Subject: [PATCH 12/93] fix: RasterMap.in_water raised IndexError or wrapped
 around off the raster

---
 py_gnome/gnome/maps/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index 7411f00..cef39f9 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -1022,7 +1022,7 @@ class RasterMap(GnomeMap):
     def _in_water_pixel(self, coord):
         # if  off the raster, so must be in water,
         # unless not on map, which should have already been checked.
-        if not self._off_raster:
+        if self._off_raster(coord):
             return True
         else:
             return not self.raster[coord[0], coord[1]] & self.land_flag
-- 
2.43.0


From 8d1cfd20b600f9911cc5fbc27f1990e8f0a212d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:00 +0000
Subject: [PATCH 13/93] fix: RectangularGridProjection.to_pixel() clipped its
 input in place

Elements on a map made from a rectangular grid were stopped at the edge of the grid
instead of leaving the map.
---
 py_gnome/gnome/utilities/projections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/projections.py b/py_gnome/gnome/utilities/projections.py
index 88fcf4b..79504b3 100644
--- a/py_gnome/gnome/utilities/projections.py
+++ b/py_gnome/gnome/utilities/projections.py
@@ -626,7 +626,8 @@ class RectangularGridProjection(NoProjection):
         """
         coords = to_2d_coords(coords)
         # All computation in floats -- convert to int if asked for
-        coords = np.asarray(coords, dtype=np.float64)
+        # note: a copy, as it gets clipped below
+        coords = np.array(coords, dtype=np.float64)
         pixel_coords = np.zeros_like(coords, dtype=np.float64)
 
         np.putmask(coords,
-- 
2.43.0


From 7dd143f6b4e22839e5dcb1f001807b0cd6d5e099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:18 +0000
Subject: [PATCH 14/93] fix: ParamMap counted the oil that left the map three
 times

---
 py_gnome/gnome/maps/map.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index cef39f9..b386910 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -660,7 +660,6 @@ class ParamMap(GnomeMap):
         the land is so simple the collisions are detected via intersection.
         """
         self.resurface_airborne_elements(sc)
-        self._set_off_map_status(sc)
 
         start_pos = sc['positions']
         next_pos = sc['next_positions']
@@ -672,18 +671,9 @@ class ParamMap(GnomeMap):
         move_particles(start_pos, next_pos, status_codes,
                        last_water_positions, self.land_points)
 
+        # this also updates 'off_maps' and 'beached' in the mass_balance
         self._set_off_map_status(sc)
 
-        # todo: need a prepare_for_model_run() so map adds these keys to
-        #     mass_balance as opposed to SpillContainer
-        # update 'off_maps'/'beached' in mass_balance
-        # note: this requires that the elements get removed before the
-        #       next timestep, or it would get double counted.
-        sc.mass_balance['beached'] = \
-            sc['mass'][sc['status_codes'] == oil_status.on_land].sum()
-        sc.mass_balance['off_maps'] += \
-            sc['mass'][sc['status_codes'] == oil_status.off_maps].sum()
-
     def refloat_elements(self, spill_container, time_step, model_time=None):
         """
         This method performs the re-float logic -- changing the element
-- 
2.43.0


From 8fd757336a496e71a3e05db3adbde4cccbbb1217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:38 +0000
Subject: [PATCH 15/93] fix: shift_lons of MapFromBNA did nothing for a map on
 both sides of the seam

---
 py_gnome/gnome/maps/map.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index b386910..fbcd004 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -1190,17 +1190,11 @@ class RasterMap(GnomeMap):
 # Fixme -- use utilities.convert_longitude
 
 def ShiftLon360(points):
-    try:
-        points[points[:,0] < 0, 0] = points[:, 0] + 360
-    except ValueError:
-        pass
+    points[points[:, 0] < 0, 0] += 360
     return points
 
 def ShiftLon180(points):
-    try:
-        points[points[:,0] > 180, 0] = points[:, 0] - 360
-    except ValueError:
-        pass
+    points[points[:, 0] > 180, 0] -= 360
     return points
 
 class MapFromBNA(RasterMap):
-- 
2.43.0


From 2e9f72343032cb21b880884890e3ec65b70dab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:27 +0000
Subject: [PATCH 16/93] fix: Wind did not convert the units of the v component
 of 'uv' data

---
 py_gnome/gnome/environment/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index ae10b47..ec53b00 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -441,7 +441,7 @@ class Wind(Timeseries, Environment):
         if from_unit != to_unit:
             data[:, 0] = uc.convert('Velocity', from_unit, to_unit, data[:, 0])
 
-            if coord_sys == ts_format.uv:
+            if tsformat(coord_sys) == ts_format.uv:
                 data[:, 1] = uc.convert('Velocity', from_unit, to_unit, data[:, 1])
 
         return data
-- 
2.43.0


From 86924998b9f24b4bab0819af1e0c39f93bf629a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:27 +0000
Subject: [PATCH 17/93] fix: Wind converted the array it was given in place

---
 py_gnome/gnome/environment/wind.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index ec53b00..4f0b91a 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -371,7 +371,8 @@ class Wind(Timeseries, Environment):
         if self._check_timeseries(value):
             units = self.units
 
-            wind_data = self._xform_input_timeseries(value)
+            # a copy: the caller's array must not be converted
+            wind_data = self._xform_input_timeseries(value).copy()
             self._timeseries = wind_data.copy()
             wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
                                                      'meter per second')
@@ -577,7 +578,7 @@ class Wind(Timeseries, Environment):
             self._check_units(units)
             self.units = units
 
-            wind_data = self._xform_input_timeseries(wind_data)
+            wind_data = self._xform_input_timeseries(wind_data).copy()
             wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
                                                      'meter per second')
 
-- 
2.43.0


From d44449a4eb2a9e551685dd8afd2ef244b79ef49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:27 +0000
Subject: [PATCH 18/93] fix: Wind.timeseries was not in 'r-theta' and the
 wind's units after uv input, set_wind_data or a change of units

---
 py_gnome/gnome/environment/wind.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 4f0b91a..5ff0635 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -30,6 +30,7 @@ from gnome.persist import (SchemaNode, drop, OneOf, Float, String, Range, Boolea
                            DefaultTupleSchema, LocalDateTime, DatetimeValue2dArraySchema,
                            FilenameSchema, validators, base_schema)
 from gnome.utilities.convert import (to_time_value_pair, tsformat, to_datetime_value_2d)
+from gnome.utilities.transforms import uv_to_r_theta_wind
 from gnome.persist.validators import convertible_to_seconds
 
 from .environment import Environment
@@ -374,6 +375,8 @@ class Wind(Timeseries, Environment):
             # a copy: the caller's array must not be converted
             wind_data = self._xform_input_timeseries(value).copy()
             self._timeseries = wind_data.copy()
+            if tsformat(coord_sys) == ts_format.uv:
+                self._timeseries['value'] = uv_to_r_theta_wind(wind_data['value'])
             wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
                                                      'meter per second')
 
@@ -432,6 +435,11 @@ class Wind(Timeseries, Environment):
         _check_units if units are incorrect for their type of data
         """
         self._check_units(value)
+        # the timeseries is kept in the user's units
+        old_units = getattr(self, '_user_units', None)
+        if old_units is not None and old_units != value:
+            self._timeseries['value'] = self._convert_units(self._timeseries['value'].copy(),
+                                                            'r-theta', old_units, value)
         self._user_units = value
 
     def _convert_units(self, data, coord_sys, from_unit, to_unit):
@@ -578,12 +586,7 @@ class Wind(Timeseries, Environment):
             self._check_units(units)
             self.units = units
 
-            wind_data = self._xform_input_timeseries(wind_data).copy()
-            wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
-                                                     'meter per second')
-
-            super(Wind, self).set_timeseries(wind_data, coord_sys)
-            self._timeseries = wind_data
+            self.new_set_timeseries(wind_data, coord_sys)
         else:
             raise ValueError('Bad timeseries as input')
 
-- 
2.43.0


From 44245e7c4caa498ba8c69452406f9a7151456284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:27 +0000
Subject: [PATCH 19/93] fix: Wind(filename) swapped the latitude and longitude
 of the file

---
 py_gnome/gnome/environment/wind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 5ff0635..5e34457 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -216,8 +216,8 @@ class Wind(Timeseries, Environment):
             self.new_set_timeseries(wind_vel, coord_sys=coord_sys)
 
             if coords != (None, None):
-                self.longitude = coords[1]
-                self.latitude = coords[0]
+                self.longitude = coords[0]
+                self.latitude = coords[1]
 
             self.name = kwargs.pop('name', name)
             self.units = units
-- 
2.43.0


From 75032a4b7759923670547e5e5ef4b833a3436950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:08 +0000
Subject: [PATCH 20/93] fix: a timeseries given as a list was not checked for
 being in ascending order

---
 py_gnome/gnome/utilities/timeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/timeseries.py b/py_gnome/gnome/utilities/timeseries.py
index 4eec7b2..13484fa 100644
--- a/py_gnome/gnome/utilities/timeseries.py
+++ b/py_gnome/gnome/utilities/timeseries.py
@@ -130,7 +130,7 @@ class Timeseries(GnomeId):
                         raise TimeseriesError('value: {} '
                                               'is not a timeseries value'
                                               .format(i))
-                return True
+                timeseries = self._xform_input_timeseries(list(timeseries))
 
         if not self._timeseries_is_ascending(timeseries):
             self.logger.error('{0} - timeseries are not in ascending order. '
-- 
2.43.0


From dc51f79226240395a2c89c05fe2d8c96b3bbcbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:08 +0000
Subject: [PATCH 21/93] fix: a wind file without a station name could not be
 read

---
 py_gnome/gnome/environment/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 5e34457..3e90859 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -874,7 +874,7 @@ def _read_ossm_header(infile):
     # Line 1: name
     name = infile.readline().strip()
     line_no += 1
-    name = str(filename) if not name else name
+    name = str(infile.name) if not name else name
 
     # line 2: location coords:
     line = infile.readline().strip()
-- 
2.43.0


From 8efe255b977e05a98661c26a1bc05a694e7bcc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:26 +0000
Subject: [PATCH 22/93] fix: Wind.at() ignored the units asked for

---
 py_gnome/gnome/environment/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 3e90859..0f8211c 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -668,7 +668,7 @@ class Wind(Timeseries, Environment):
             if self.extrapolation_is_allowed is None:  # shouldn't happen
                 self.extrapolation_is_allowed = False
         try:
-            data = self.get_wind_data(time, 'm/s', cs)[0]['value']
+            data = self.get_wind_data(time, 'm/s' if units is None else units, cs)[0]['value']
         except IndexError:
             # CyTimeseries is raising an IndexError
             raise ValueError(f'time specified ({time}) is not within the bounds of the time: '
-- 
2.43.0


From 62f5af25a8c14729de79f9063eff1622467b8c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:59 +0000
Subject: [PATCH 23/93] fix: RunningAverage.get_value() and get_timeseries() at
 given times raised ValueError

---
 py_gnome/gnome/environment/running_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/running_average.py b/py_gnome/gnome/environment/running_average.py
index fc7e00e..e0c9180 100644
--- a/py_gnome/gnome/environment/running_average.py
+++ b/py_gnome/gnome/environment/running_average.py
@@ -187,7 +187,7 @@ class RunningAverage(Environment):
             timeval = np.zeros((len(datetime), ),
                                dtype=basic_types.time_value_pair)
             timeval['time'] = date_to_sec(datetime)
-            timeval['value'] = self.ossm.get_time_value(timeval['time'])
+            (timeval['value'], _err) = self.ossm.get_time_value(timeval['time'])
 
             datetimeval = to_datetime_value_2d(timeval, 'uv')
 
-- 
2.43.0


From c620ae16fcb570348f725966465071640f47dcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:59 +0000
Subject: [PATCH 24/93] fix: the running average counted times before the data
 as calm or as the last value

---
 py_gnome/lib_gnome/OSSMTimeValue_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/lib_gnome/OSSMTimeValue_c.cpp b/py_gnome/lib_gnome/OSSMTimeValue_c.cpp
index 19721ac..27dd346 100644
--- a/py_gnome/lib_gnome/OSSMTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/OSSMTimeValue_c.cpp
@@ -1482,12 +1482,12 @@ TimeValuePairH OSSMTimeValue_c::CalculateRunningAverage(long pastHoursToAverage,
 				err = GetDataStartTime(&start_time);
 				err = GetDataEndTime(&end_time);
 
-                if (model_time < start_time) {
+                if (timeToAverage < start_time) {
                     err = GetTimeValue(start_time, &velocity);
 
                     if (err) return 0;
                 }
-                if (model_time > end_time) {
+                if (timeToAverage > end_time) {
                     err = GetTimeValue(end_time, &velocity);
 
                     if (err) return 0;
-- 
2.43.0


From b5e40fd1c1ee525dfe1f83351a25d7139d5174cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:22 +0000
Subject: [PATCH 25/93] fix: a burn thinner than the minimum can be saved and
 loaded again

---
 py_gnome/gnome/weatherers/cleanup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/cleanup.py b/py_gnome/gnome/weatherers/cleanup.py
index 2d2fad2..12323a3 100644
--- a/py_gnome/gnome/weatherers/cleanup.py
+++ b/py_gnome/gnome/weatherers/cleanup.py
@@ -445,7 +445,9 @@ class Burn(CleanUpBase):
         :param bool on: whether object is on or not for the run
 
         '''
-        super(Burn, self).__init__(active_range=active_range,
+        # the stop time is always computed from the thickness (see above)
+        super(Burn, self).__init__(active_range=(active_range[0],
+                                                 InfDateTime('inf')),
                                    efficiency=efficiency,
                                    **kwargs)
 
-- 
2.43.0


From 2272e8b63532e4a54d59080f384c0e1edd6d2ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:22 +0000
Subject: [PATCH 26/93] fix: Beaching with a Water object can be saved (it used
 an outdated WaterSchema)

---
 py_gnome/gnome/weatherers/manual_beaching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/manual_beaching.py b/py_gnome/gnome/weatherers/manual_beaching.py
index 42fd614..eb68a47 100644
--- a/py_gnome/gnome/weatherers/manual_beaching.py
+++ b/py_gnome/gnome/weatherers/manual_beaching.py
@@ -22,7 +22,7 @@ from gnome.persist import (validators, base_schema, DefaultTupleSchema,
 
 from .core import WeathererSchema
 from .cleanup import RemoveMass
-from gnome.environment.environment import WaterSchema
+from gnome.environment.water import WaterSchema
 
 
 class BeachingTupleSchema(DefaultTupleSchema):
-- 
2.43.0


From 4ec566114bbe58b3315999cd4b23ad0e112aca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:22 +0000
Subject: [PATCH 27/93] fix: GridRelease can be loaded from a save file, keeps
 initial positions and does not print

---
 py_gnome/gnome/spills/release.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index e694809..8e57354 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -480,7 +480,7 @@ class Release(GnomeId):
         sc['init_mass'][sl] = self._mass_per_le
 
         if self.retain_initial_positions:
-            sc['init_positions'][sl] = pos
+            sc['init_positions'][sl] = positions
 
     def initialize_elements_post_substance(self, to_rel, sc, start_time, end_time, environment):
 
@@ -1036,7 +1036,8 @@ class GridRelease(Release):
 
     _schema = GridReleaseSchema
 
-    def __init__(self, release_time, bounds, resolution, release_mass=0):
+    def __init__(self, release_time, bounds, resolution, release_mass=0,
+                 **kwargs):
         """
         Release from a 2-D grid of points.
 
@@ -1075,8 +1076,8 @@ class GridRelease(Release):
         super().__init__(release_time=release_time,
                          # custom_positions=positions,
                          # num_elements=len(positions),
-                         release_mass=release_mass
-                         )
+                         release_mass=release_mass,
+                         **kwargs)
     @property
     def num_elements(self):
         res = self.resolution
@@ -1109,9 +1110,6 @@ class GridRelease(Release):
         .. note:: this releases all the elements at their initial positions at
             the end_time
         """
-        print("called initialize_elements")
-        print(to_rel, start_time, end_time)
-
         positions = self._compute_grid_points()
 
         num_locs = len(positions)
-- 
2.43.0


From 210a6bac735b3480711fe292a3edfa366e53849b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:22 +0000
Subject: [PATCH 28/93] fix: CurrentMover with a SteadyUniformCurrent can be
 saved and serialized

---
 py_gnome/gnome/movers/py_current_movers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index f76dd6f..bd07208 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -14,7 +14,7 @@ from gnome.utilities.projections import FlatEarthProjection
 from gnome.utilities.time_utils import TZOffset
 
 
-from gnome.environment import GridCurrent
+from gnome.environment import GridCurrent, SteadyUniformCurrent
 from gnome.environment.gridded_objects_base import Grid_U, VectorVariableSchema
 
 from gnome.movers.movers import TimeRangeSchema, PyMoverSchema
@@ -30,7 +30,8 @@ class CurrentMoverSchema(PyMoverSchema):
     current = GeneralGnomeObjectSchema(save=True, update=True,
                                        save_reference=True,
                                        acceptable_schemas=[VectorVariableSchema,
-                                                           GridCurrent._schema]
+                                                           GridCurrent._schema,
+                                                           SteadyUniformCurrent._schema]
                                        )
     uncertain_along = SchemaNode(
         Float(), missing=drop, save=True, update=True
-- 
2.43.0


From 7ff1f3bdba1eed8a92f14209d28aea80ff52c098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:22 +0000
Subject: [PATCH 29/93] fix: data files with the same name and braces in names
 no longer break a save file

---
 py_gnome/gnome/persist/base_schema.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/persist/base_schema.py b/py_gnome/gnome/persist/base_schema.py
index 287260d..2abf2a2 100644
--- a/py_gnome/gnome/persist/base_schema.py
+++ b/py_gnome/gnome/persist/base_schema.py
@@ -391,8 +391,14 @@ class ObjType(SchemaType):
         d_fname = os.path.split(raw_path)[1]
         # add datafile to zip archive
 
-        if d_fname not in zipfile_.namelist():
-            zipfile_.write(raw_path, d_fname)
+        if d_fname in zipfile_.namelist():
+            # another file may have the same name in a different folder
+            with open(raw_path, 'rb') as fp:
+                if zipfile_.read(d_fname) == fp.read():
+                    return d_fname
+            d_fname = gen_unique_filename(d_fname, zipfile_)
+
+        zipfile_.write(raw_path, d_fname)
 
         return d_fname
 
@@ -992,13 +998,12 @@ def gen_unique_filename(filename_in, zipfile_):
     filename_in = sanitize_string(filename_in)
     existing_files = set(zipfile_.namelist())
     file_name, extension = get_file_name_ext(filename_in)
-    fmtstring = file_name + '{0}' + extension
-    new_fn = fmtstring.format('')
+    new_fn = file_name + extension
 
     for i in range(255):
         if new_fn not in existing_files:
             return new_fn
         else:
-            new_fn = fmtstring.format(' (' + str(i) + ')')
+            new_fn = file_name + ' (' + str(i) + ')' + extension
 
     raise ValueError('Same file name used too many times')
-- 
2.43.0


From 22cf4c34aacd2c023c9596222b3deed7266f1191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:22 +0000
Subject: [PATCH 30/93] fix: a failed save leaves the existing save file as it
 was, and save/load accept the documented locations

---
 py_gnome/gnome/gnomeobject.py | 81 ++++++++++++++++++++++-------------
 py_gnome/gnome/model.py       | 52 ++++++++++------------
 2 files changed, 75 insertions(+), 58 deletions(-)

diff --git a/py_gnome/gnome/gnomeobject.py b/py_gnome/gnome/gnomeobject.py
index bbe17c3..4615fd7 100644
--- a/py_gnome/gnome/gnomeobject.py
+++ b/py_gnome/gnome/gnomeobject.py
@@ -5,6 +5,7 @@ import copy
 import logging
 import glob
 import json
+import shutil
 import zipfile
 import tempfile
 
@@ -831,13 +832,21 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
                                             reference to the object that
                                             called ``.save`` itself.
         """
+        if isinstance(saveloc, zipfile.ZipFile):
+            # an open archive: append to it, and leave it open
+            if refs is None:
+                refs = Refs()
+            obj_json = self._write_to_zip(saveloc, refs)
+            return (obj_json, saveloc, refs)
+
         # convert save location to a string
         # fixme: we should probably use pathlib in the rest of this instead,
         #        but this should work for now.
         if saveloc is not None:
             saveloc = os.fspath(saveloc)
 
-        zipfile_ = None
+        if refs is None:
+            refs = Refs()
 
         if saveloc is None:
             # Only provide an open zipfile object.  When this is closed or
@@ -853,8 +862,12 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
                 compression=zipfile.ZIP_DEFLATED,
                 allowZip64=allowzip64
             )
+            obj_json = self._write_to_zip(zipfile_, refs)
+            log.info('Returning open zipfile in memory')
+            return (obj_json, zipfile_, refs)
 
-        elif os.path.isdir(saveloc):
+        append = False
+        if os.path.isdir(saveloc):
             # n = gnome.persist.base_schema.sanitize_string(self.name)
             # this is a filename, so we should be using this -- even though
             # they are similar
@@ -865,42 +878,49 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
                 if not overwrite:
                     raise ValueError('{} already exists and overwrite is False'
                                      .format(saveloc))
-
-            zipfile_ = zipfile.ZipFile(saveloc, 'w',
-                                       compression=zipfile.ZIP_DEFLATED,
-                                       allowZip64=allowzip64)
         else:
             # saveloc is file path
             if not (saveloc.endswith(".zip") or saveloc.endswith(".gnome")):
                 saveloc = saveloc + ".gnome"
-            if not overwrite:
-                if zipfile.is_zipfile(saveloc):
-                    zipfile_ = zipfile.ZipFile(
-                        saveloc, 'a',
-                        compression=zipfile.ZIP_DEFLATED,
-                        allowZip64=allowzip64
-                    )
-                else:
+            if not overwrite and os.path.exists(saveloc):
+                if not zipfile.is_zipfile(saveloc):
                     raise ValueError('{} already exists and overwrite is False'
                                      .format(saveloc))
-            else:
-                zipfile_ = zipfile.ZipFile(saveloc, 'w',
-                                           compression=zipfile.ZIP_DEFLATED,
-                                           allowZip64=allowzip64)
-        if refs is None:
-            refs = Refs()
+                append = True
 
+        # write everything to a file next to the final one, and only put it in
+        # place once it is complete: a save that fails or is interrupted then
+        # leaves an already existing save file as it was.
+        target = os.path.realpath(saveloc)
+        partial = '{}.{}.part'.format(target, os.getpid())
+        try:
+            if append:
+                shutil.copyfile(target, partial)
+            with zipfile.ZipFile(partial, 'a' if append else 'w',
+                                 compression=zipfile.ZIP_DEFLATED,
+                                 allowZip64=allowzip64) as zipfile_:
+                obj_json = self._write_to_zip(zipfile_, refs)
+            os.replace(partial, target)
+        finally:
+            if os.path.exists(partial):
+                os.remove(partial)
+
+        return (obj_json, saveloc, refs)
+
+    def _write_to_zip(self, zipfile_, refs):
+        """
+        Write this object, everything it refers to and the version information
+        to an open zipfile.ZipFile
+        """
         obj_json = self._schema()._save(self, zipfile_=zipfile_, refs=refs)
 
-        zipfile_.writestr('version.txt', SAVEFILE_VERSION)
-        zipfile_.writestr('pygnome_version.txt', gnome.__version__)
+        existing = zipfile_.namelist()
+        if 'version.txt' not in existing:
+            zipfile_.writestr('version.txt', SAVEFILE_VERSION)
+        if 'pygnome_version.txt' not in existing:
+            zipfile_.writestr('pygnome_version.txt', gnome.__version__)
 
-        if saveloc is None:
-            log.info('Returning open zipfile in memory')
-            return (obj_json, zipfile_, refs)
-        else:
-            zipfile_.close()
-            return (obj_json, saveloc, refs)
+        return obj_json
 
     @classmethod
     def load(cls, saveloc='.', filename=None, refs=None):
@@ -928,6 +948,9 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
         if not refs:
             refs = Refs()
 
+        if isinstance(saveloc, os.PathLike):
+            saveloc = os.fspath(saveloc)
+
         if isinstance(saveloc, str):
             if os.path.isdir(saveloc):
                 # run the savefile update system
@@ -968,7 +991,7 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
                 with open(saveloc, 'r') as fp:
                     json_ = json.load(fp)
 
-                if 'obj_type' in json:
+                if 'obj_type' in json_:
                     if class_from_objtype(json_['obj_type']) is not cls:
                         raise ValueError("{} does not contain a {}"
                                          .format(saveloc, cls.__name__))
diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index a9a2b13..16b41e0 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -36,6 +36,7 @@ model run and in subsequent steps the model moves and weathers elements.
 import os
 from datetime import datetime, timedelta
 import zipfile
+import tempfile
 from pprint import pformat
 import copy
 import warnings
@@ -83,7 +84,7 @@ from gnome.persist.base_schema import (ObjTypeSchema,
                                        GeneralGnomeObjectSchema)
 from gnome.exceptions import ReferencedObjectNotSet, GnomeRuntimeError
 from gnome.spills.spill import SpillSchema
-from gnome.gnomeobject import GnomeId, allowzip64, Refs
+from gnome.gnomeobject import GnomeId, Refs
 from gnome.persist.extend_colander import OrderedCollectionSchema
 from gnome.spills.substance import NonWeatheringSubstance
 
@@ -1480,9 +1481,12 @@ class Model(GnomeId):
         save the data in the SpillContainer's if it is a mid-run save.
 
         '''
-        json_, saveloc, refs = super(Model, self).save(saveloc=saveloc,
-                                                       refs=refs,
-                                                       overwrite=overwrite)
+        return super(Model, self).save(saveloc=saveloc,
+                                       refs=refs,
+                                       overwrite=overwrite)
+
+    def _write_to_zip(self, zipfile_, refs):
+        json_ = super(Model, self)._write_to_zip(zipfile_, refs)
 
         # because a model can be saved mid-run and the SpillContainer data
         # required to reload is not covered in the schema, need to add the
@@ -1492,37 +1496,27 @@ class Model(GnomeId):
             hard code the filename - can make this an attribute if user wants
             to change it - but not sure if that will ever be needed?
             '''
-            self._save_spill_data(saveloc, 'spills_data_arrays.nc')
+            self._save_spill_data(zipfile_, 'spills_data_arrays.nc')
 
-        return json_, saveloc, refs
+        return json_
 
-    def _save_spill_data(self, saveloc, nc_filename):
+    def _save_spill_data(self, zipfile_, nc_filename):
         """
-        save the data arrays for current timestep to NetCDF
-        If saveloc is zipfile, then move NetCDF to zipfile
+        save the data arrays for current timestep to NetCDF, and put the
+        NetCDF in the zipfile
         """
-        nc_out = NetCDFOutput(nc_filename, which_data='all', cache=self._cache)
-        nc_out.prepare_for_model_run(model_start_time=self.start_time,
-                                     uncertain=self.uncertain,
-                                     spills=self.spills)
-        nc_out.write_output(self.current_time_step)
-
-        if isinstance(saveloc, zipfile.ZipFile):
-            saveloc.write(nc_filename, nc_filename)
+        with tempfile.TemporaryDirectory(prefix='gnome.') as tempdir:
+            nc_out = NetCDFOutput(os.path.join(tempdir, nc_filename),
+                                  which_data='all', cache=self._cache)
+            nc_out.prepare_for_model_run(model_start_time=self.start_time,
+                                         uncertain=self.uncertain,
+                                         spills=self.spills)
+            nc_out.write_output(self.current_time_step)
+
+            zipfile_.write(os.path.join(tempdir, nc_filename), nc_filename)
             if self.uncertain:
                 u_file = nc_out.uncertain_filename
-                saveloc.write(u_file, os.path.split(u_file)[1])
-        elif zipfile.is_zipfile(saveloc):
-            with zipfile.ZipFile(saveloc, 'a',
-                                 compression=zipfile.ZIP_DEFLATED,
-                                 allowZip64=allowzip64) as z:
-                z.write(nc_filename, nc_filename)
-                if self.uncertain:
-                    u_file = nc_out.uncertain_filename
-                    z.write(u_file, os.path.split(u_file)[1])
-        if self.uncertain:
-            os.remove(u_file)
-        os.remove(nc_filename)
+                zipfile_.write(u_file, os.path.split(u_file)[1])
 
     @classmethod
     def load(cls, saveloc='.', filename=None, refs=None):
-- 
2.43.0


From bb1504c170dabc8619b865b14277ae7bf170e0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:10 +0000
Subject: [PATCH 31/93] fix: a model keeps weathering_substeps and
 make_default_refs when saved and loaded

---
 py_gnome/gnome/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 16b41e0..99d5751 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -97,7 +97,7 @@ from gnome.utilities.appearance import AppearanceSchema
 class ModelSchema(ObjTypeSchema):
     'Colander schema for Model object'
     time_step = SchemaNode(Float())
-    weathering_substeps = SchemaNode(Int(), read_only=True)
+    weathering_substeps = SchemaNode(Int(), update=False)
     start_time = SchemaNode(
         extend_colander.LocalDateTime(),
         validator=validators.convertible_to_seconds
@@ -330,7 +330,7 @@ class Model(GnomeId):
 
         # model creates references to weatherers/environment if
         # make_default_refs is True
-        self.make_default_refs = True
+        self.make_default_refs = make_default_refs
 
         self.location = location
         self._register_callbacks()
@@ -480,7 +480,7 @@ class Model(GnomeId):
                     setattr(self, k, attrs[k])
                 except AttributeError:
                     self.logger.error('Failed to set {} on {} to {}'
-                                         .format(k, self, v))
+                                         .format(k, self, attrs[k]))
                     raise
                 attrs.pop(k)
 
-- 
2.43.0


From df0e80455da36d0cdd111282332f170b3f9f1246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:10 +0000
Subject: [PATCH 32/93] fix: releases keep retain_initial_positions and
 subsurface releases their distribution when saved and loaded

---
 py_gnome/gnome/spills/release.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 8e57354..e2128cd 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -30,7 +30,8 @@ from colander import (String, SchemaNode, SequenceSchema, drop, Int, Float,
                       Boolean)
 
 from gnome.persist.base_schema import (ObjTypeSchema, WorldPoint, FeatureCollectionSchema,
-                                       LongLatBounds, IntPair)
+                                       LongLatBounds, IntPair,
+                                       GeneralGnomeObjectSchema)
 from gnome.persist.extend_colander import LocalDateTime, FilenameSchema
 
 from gnome.basic_types import world_point_type
@@ -50,6 +51,10 @@ from gnome.constants import gravity
 from gnome.ops import default_constants
 
 from gnome.utilities.time_utils import TZOffset, TZOffsetSchema
+from gnome.utilities.distributions import (UniformDistributionSchema,
+                                           NormalDistributionSchema,
+                                           LogNormalDistributionSchema,
+                                           WeibullDistributionSchema)
 #from gnome.exceptions import ReferencedObjectNotSet
 from .initializers import (InitRiseVelFromDropletSizeFromDist,
                            InitRiseVelFromDist)
@@ -104,6 +109,8 @@ class BaseReleaseSchema(ObjTypeSchema):
         Float()
     )
     custom_positions = StartPositions(save=True, update=True)
+    retain_initial_positions = SchemaNode(Boolean(), missing=drop,
+                                          save=True, update=False)
     centroid = WorldPoint(save=False, update=False, read_only=True)
     timezone_offset = TZOffsetSchema()
 
@@ -1432,6 +1439,14 @@ class SubsurfaceReleaseSchema(BaseReleaseSchema):
     end_position = WorldPoint(
         missing=drop, save=True, update=True
     )
+    distribution = GeneralGnomeObjectSchema(
+        acceptable_schemas=[UniformDistributionSchema,
+                            NormalDistributionSchema,
+                            WeibullDistributionSchema,
+                            LogNormalDistributionSchema],
+        save=True, update=False, save_reference=True
+    )
+    distribution_type = SchemaNode(String(), save=True, update=False)
     description = 'SubsurfaceRelease object schema'
 
 class SubsurfaceRelease(PointLineRelease):
@@ -1465,9 +1480,9 @@ class SubsurfaceRelease(PointLineRelease):
 
         # remove plume_initializers method and move stuff here
         if distribution_type == 'droplet_size':
-               self._init_rise_vel = InitRiseVelFromDropletSizeFromDist(distribution=distribution, **kwargs)
+               self._init_rise_vel = InitRiseVelFromDropletSizeFromDist(distribution=distribution)
         elif distribution_type == 'rise_velocity':
-               self._init_rise_vel = InitRiseVelFromDist(distribution=distribution,**kwargs)
+               self._init_rise_vel = InitRiseVelFromDist(distribution=distribution)
         else:
                raise TypeError('distribution_type must be either droplet_size or '
                                'rise_velocity')
-- 
2.43.0


From c6ec906682c2aa7fa8bd0bae000eb895f6c28b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:10 +0000
Subject: [PATCH 33/93] fix: substances keep their density and droplet
 distribution when saved and loaded

---
 py_gnome/gnome/spills/substance.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/substance.py b/py_gnome/gnome/spills/substance.py
index fb81d66..277cb33 100644
--- a/py_gnome/gnome/spills/substance.py
+++ b/py_gnome/gnome/spills/substance.py
@@ -26,6 +26,11 @@ from gnome.persist import (Float, Int, SchemaNode,
                            Boolean, ObjTypeSchema, GeneralGnomeObjectSchema,
                            TupleSchema, Range)
 
+from gnome.utilities.distributions import (UniformDistributionSchema,
+                                           NormalDistributionSchema,
+                                           LogNormalDistributionSchema,
+                                           WeibullDistributionSchema)
+
 from gnome.spills.initializers import (InitWindages,
                                        InitRiseVelFromDropletSizeFromDist,
                                        )
@@ -57,7 +62,7 @@ class SubstanceSchema(ObjTypeSchema):
 
 
 class NonWeatheringSubstanceSchema(SubstanceSchema):
-    pass
+    standard_density = SchemaNode(Float(), save=True, update=True)
 
 
 class Substance(GnomeId):
@@ -280,7 +285,19 @@ class NonWeatheringSubstance(Substance):
 
 
 
+class SubsurfaceSubstanceSchema(NonWeatheringSubstanceSchema):
+    distribution = GeneralGnomeObjectSchema(
+        acceptable_schemas=[UniformDistributionSchema,
+                            NormalDistributionSchema,
+                            WeibullDistributionSchema,
+                            LogNormalDistributionSchema],
+        save=True, update=False, save_reference=True
+    )
+
+
 class SubsurfaceSubstance(NonWeatheringSubstance):
+    _schema = SubsurfaceSubstanceSchema
+
     """
     Substance that can be used subsurface
 
@@ -303,6 +320,7 @@ class SubsurfaceSubstance(NonWeatheringSubstance):
         """
         super().__init__(*args, **kwargs)
 
+        self.distribution = distribution
         init = InitRiseVelFromDropletSizeFromDist(distribution=distribution)
         self.initializers.append(init)
         self.array_types.update(init.array_types)
-- 
2.43.0


From 0d14b1ba406a35d5f0c5afdebeda99acae793d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:46 +0000
Subject: [PATCH 34/93] fix: deserializing a model keeps objects that share a
 wind or water sharing it

---
 py_gnome/gnome/maps/map.py            | 4 ++--
 py_gnome/gnome/persist/base_schema.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index fbcd004..1705c75 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -711,7 +711,7 @@ class ParamMap(GnomeMap):
                 spill_container['last_water_positions'][r_idx]
             spill_container['status_codes'][r_idx] = oil_status.in_water
 
-    def update_from_dict(self, data):
+    def update_from_dict(self, data, refs=None):
         if ('center' in data or
             'distance' in data or
             'bearing' in data or
@@ -725,7 +725,7 @@ class ParamMap(GnomeMap):
         else:
             # for the case when instantiating a param map using new_from_dict,
             # since new_from_dict will call update_from_dict
-            super(ParamMap, self).update_from_dict(data)
+            return super(ParamMap, self).update_from_dict(data, refs=refs)
 
     def to_geojson(self):
         shoreline_geo = [p.points.tolist() for p in self.land_polys]
diff --git a/py_gnome/gnome/persist/base_schema.py b/py_gnome/gnome/persist/base_schema.py
index 2abf2a2..ad372c4 100644
--- a/py_gnome/gnome/persist/base_schema.py
+++ b/py_gnome/gnome/persist/base_schema.py
@@ -205,7 +205,7 @@ class ObjType(SchemaType):
                 log.info(refs[id_].name)
             except Exception as e:
                 log.warning('Could not log object name: ' + e.msg)
-            updated = refs[id_].update_from_dict(cstruct)
+            updated = refs[id_].update_from_dict(cstruct, refs)
             if updated:
                 log.info('Updated object {0} from json'.format(refs[id_].name))
             return refs[id_]
-- 
2.43.0


From 6e826beeb76be2a63dda385ac486c2120f41f567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:46 +0000
Subject: [PATCH 35/93] fix: updating a wind leaves the given dict as it is and
 reports the change

---
 py_gnome/gnome/environment/wind.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 0f8211c..3173301 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -299,12 +299,16 @@ class Wind(Timeseries, Environment):
 
 
     def update_from_dict(self, dict_, refs=None):
+        dict_ = dict(dict_)  # leave the caller's dict as it is
+        old_units, old_timeseries = self.units, self.timeseries
         if 'units' in dict_:
             # enforce updating of units before timeseries
             self.units = dict_.pop('units')
         if 'timeseries' in dict_:
             self.timeseries = WindTimeSeriesSchema().deserialize(dict_.pop('timeseries'))
-        super(Wind, self).update_from_dict(dict_, refs=refs)
+        updated = super(Wind, self).update_from_dict(dict_, refs=refs)
+        return (updated or self.units != old_units or
+                not np.array_equal(self.timeseries, old_timeseries))
 
     def _check_units(self, units):
         '''
-- 
2.43.0


From bf5f9937b942ee37084556d11543c8de69ded2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:28 +0000
Subject: [PATCH 36/93] fix: the polygons of a PolygonRelease can be assigned

---
 py_gnome/gnome/spills/release.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index e2128cd..92ab4f4 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -864,7 +864,7 @@ class PolygonRelease(Release):
     @polygons.setter
     def polygons(self, polys):
         #polygons must be list of shapely or geojson (Multi)Polygon
-        for feat, poly in zip(self.features[:], poly):
+        for feat, poly in zip(self.features[:], polys):
             feat.geometry = geojson.loads(geojson.dumps(poly.__geo_interface__))
 
     @property
-- 
2.43.0


From b277c10cfb64098efa298619612b5eceffcec62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:37 +0000
Subject: [PATCH 37/93] fix: objects whose name starts with a dot, or in a
 folder with brackets, can be loaded

---
 py_gnome/gnome/gnomeobject.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/gnomeobject.py b/py_gnome/gnome/gnomeobject.py
index 4615fd7..8d5c83b 100644
--- a/py_gnome/gnome/gnomeobject.py
+++ b/py_gnome/gnome/gnomeobject.py
@@ -3,7 +3,6 @@
 import os
 import copy
 import logging
-import glob
 import json
 import shutil
 import zipfile
@@ -965,10 +964,10 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
                     return cls._schema().load(json_, saveloc=saveloc,
                                               refs=refs)
                 else:
-                    search = os.path.join(saveloc, '*.json')
-
-                    for fn in glob.glob(search):
-                        with open(fn) as fp:
+                    for fn in sorted(os.listdir(saveloc)):
+                        if not fn.endswith('.json'):
+                            continue
+                        with open(os.path.join(saveloc, fn)) as fp:
                             json_ = json.load(fp)
                             if 'obj_type' in json_:
                                 obj_cls = class_from_objtype(json_['obj_type'])
-- 
2.43.0


From 2ef5f8c1d2f4b3956e97b8fd0a26f5b8b38c03d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:37 +0000
Subject: [PATCH 38/93] fix: creating an object id no longer consumes the
 random numbers of a model run

---
 py_gnome/gnome/gnomeobject.py          | 4 ++--
 py_gnome/gnome/utilities/appearance.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/gnomeobject.py b/py_gnome/gnome/gnomeobject.py
index 8d5c83b..99f3214 100644
--- a/py_gnome/gnome/gnomeobject.py
+++ b/py_gnome/gnome/gnomeobject.py
@@ -8,7 +8,7 @@ import shutil
 import zipfile
 import tempfile
 
-from uuid import uuid1
+from uuid import uuid4
 
 import numpy as np
 import colander
@@ -276,7 +276,7 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
         Used only for deep copy.
         Used to make a new object which is a copy of the original.
         """
-        self._id = str(uuid1())
+        self._id = str(uuid4())
 
     @property
     def obj_type(self):
diff --git a/py_gnome/gnome/utilities/appearance.py b/py_gnome/gnome/utilities/appearance.py
index cbab3b9..a7631ca 100644
--- a/py_gnome/gnome/utilities/appearance.py
+++ b/py_gnome/gnome/utilities/appearance.py
@@ -27,7 +27,7 @@ class Appearance(object):
     _schema = AppearanceSchema
 
     def __init__(self, **kwargs):
-        self.id = str(uuid1())
+        self.id = str(uuid4())
         if 'name' in kwargs:
             self._name = kwargs.pop('name')
         for k, v in kwargs.items():
-- 
2.43.0


From 8de5039349a395d367027866a3897e726b0b969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:45 +0000
Subject: [PATCH 39/93] fix: several objects with names made of dots can be
 saved in one file

---
 py_gnome/gnome/persist/base_schema.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/persist/base_schema.py b/py_gnome/gnome/persist/base_schema.py
index ad372c4..8d5fdf2 100644
--- a/py_gnome/gnome/persist/base_schema.py
+++ b/py_gnome/gnome/persist/base_schema.py
@@ -985,8 +985,9 @@ def get_file_name_ext(filename_in):
 
 
 def sanitize_string(s):
-    # basic HTML string sanitization
-    return re.sub(r'[/\\<>:"|?*$]', '_', s)
+    # basic HTML string sanitization, and no leading dot (hidden files, and
+    # names os.path.splitext() can not split)
+    return re.sub(r'^\.|[/\\<>:"|?*$]', '_', s)
 
 
 def gen_unique_filename(filename_in, zipfile_):
-- 
2.43.0


From 70e48c57f6749e6f879239c56299883d840139ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:22 +0000
Subject: [PATCH 40/93] fix: appending to a save file that can not be opened
 does not drop what it held

---
 py_gnome/gnome/gnomeobject.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/gnomeobject.py b/py_gnome/gnome/gnomeobject.py
index 99f3214..b46eedf 100644
--- a/py_gnome/gnome/gnomeobject.py
+++ b/py_gnome/gnome/gnomeobject.py
@@ -895,10 +895,13 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
         try:
             if append:
                 shutil.copyfile(target, partial)
-            with zipfile.ZipFile(partial, 'a' if append else 'w',
-                                 compression=zipfile.ZIP_DEFLATED,
-                                 allowZip64=allowzip64) as zipfile_:
-                obj_json = self._write_to_zip(zipfile_, refs)
+            # (opened here: ZipFile() itself would silently start an empty
+            # archive if it could not open the one to append to)
+            with open(partial, 'r+b' if append else 'w+b') as fp:
+                with zipfile.ZipFile(fp, 'a' if append else 'w',
+                                     compression=zipfile.ZIP_DEFLATED,
+                                     allowZip64=allowzip64) as zipfile_:
+                    obj_json = self._write_to_zip(zipfile_, refs)
             os.replace(partial, target)
         finally:
             if os.path.exists(partial):
-- 
2.43.0


From ae4135cfdc0ce5027e6c8b7b1afe8e32a6e13fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:18 +0000
Subject: [PATCH 41/93] fix: hidden files next to a saved object are ignored
 again when it is loaded

---
 py_gnome/gnome/gnomeobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/gnomeobject.py b/py_gnome/gnome/gnomeobject.py
index b46eedf..11ff717 100644
--- a/py_gnome/gnome/gnomeobject.py
+++ b/py_gnome/gnome/gnomeobject.py
@@ -968,7 +968,7 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
                                               refs=refs)
                 else:
                     for fn in sorted(os.listdir(saveloc)):
-                        if not fn.endswith('.json'):
+                        if fn.startswith('.') or not fn.endswith('.json'):
                             continue
                         with open(os.path.join(saveloc, fn)) as fp:
                             json_ = json.load(fp)
-- 
2.43.0


From 1592020716b5525e1b8c0713004722235a55983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:34 +0000
Subject: [PATCH 42/93] fix: is_savezip_valid() says False for an archive that
 can not be opened

---
 py_gnome/gnome/persist/save_load.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/persist/save_load.py b/py_gnome/gnome/persist/save_load.py
index 5787b25..b085911 100644
--- a/py_gnome/gnome/persist/save_load.py
+++ b/py_gnome/gnome/persist/save_load.py
@@ -536,8 +536,14 @@ def is_savezip_valid(savezip,
         log.warning("{0} is not a valid zipfile".format(savezip))
         return False
 
-    with zipfile.ZipFile(savezip, 'r') as z:
-        # 1) Failed to open zipfile
+    # 1) Failed to open zipfile
+    try:
+        z = zipfile.ZipFile(savezip, 'r')
+    except Exception:
+        log.warning("Failed to open {0}".format(savezip))
+        return False
+
+    with z:
         try:
             badfile = z.testzip()
         except Exception:
-- 
2.43.0


From fb3dbeccab806faad2774a1c28b5157482bb941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:56 +0000
Subject: [PATCH 43/93] fix: output_timestep=None without the zero step, and
 the cadence of runs backwards in time

---
 py_gnome/gnome/outputters/outputter.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 5641998..0231c33 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -295,31 +295,33 @@ class Outputter(GnomeId):
         d = timedelta(seconds=time_step)
         if self.output_start_time is not None:
             if self.output_start_time != self._model_start_time:
-                if model_time + d < self.output_start_time:
+                # how far past the output_start_time this step ends,
+                # in the direction the model is running
+                past_start = (model_time + d
+                              - self.output_start_time).total_seconds()
+                if time_step < 0:
+                    past_start = -past_start
+
+                if past_start < 0:
                     self._write_step = False
                     return
 
-                if model_time + d == self.output_start_time:
+                if past_start == 0 or self._is_first_output:
                     self._write_step = True
                     self._is_first_output = False
                     return
 
-                if ((model_time + d > self.output_start_time and time_step > 0) or
-                    (model_time + d < self.output_start_time and time_step < 0)):
-                    if self._is_first_output:
-                        self._write_step = True
-                        self._is_first_output = False
-                        return
-
         if self.output_single_step:
             self._write_step = False
             return
 
-        if self._output_timestep is not None:
+        if self._output_timestep is None:
+            self._write_step = True
+        else:
             self._write_step = False
-            self._dt_since_lastoutput += time_step
+            self._dt_since_lastoutput += abs(time_step)
 
-            if abs(self._dt_since_lastoutput) >= abs(self._output_timestep):
+            if self._dt_since_lastoutput >= self._output_timestep:
                 self._write_step = True
                 self._dt_since_lastoutput = (self._dt_since_lastoutput %
                                              self._output_timestep)
-- 
2.43.0


From 1fd12f1f9440e6e4c4f80c7e2d43fd2ea99aa3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:56 +0000
Subject: [PATCH 44/93] fix: an outputter that is switched off writes nothing

---
 py_gnome/gnome/outputters/outputter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 0231c33..b6e9566 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -355,6 +355,10 @@ class Outputter(GnomeId):
         :type islast_step: bool
 
         """
+        if not self.on:
+            self._write_step = False
+            return
+
         if step_num == 0:
             if self.output_zero_step or self._single_output_at_start:
                 self._write_step = True  # this is the default
-- 
2.43.0


From ed1e564e4ee0c703c27eaa8b9de9e123cd087c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:56 +0000
Subject: [PATCH 45/93] fix: output written after the run follows the cadence
 on the last step and in long or backward steps

---
 py_gnome/gnome/outputters/outputter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index b6e9566..1d88cda 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -473,12 +473,12 @@ class Outputter(GnomeId):
         last_step = False
 
         for step_num in range(num_time_steps):
-            if (step_num > 0 and step_num < num_time_steps - 1):
+            if step_num > 0:
                 next_ts = (self.cache.load_timestep(step_num).items()[0].
                            current_time_stamp)
                 ts = next_ts - model_time
 
-                self.prepare_for_model_step(ts.seconds, model_time)
+                self.prepare_for_model_step(ts.total_seconds(), model_time)
 
             if step_num == num_time_steps - 1:
                 last_step = True
-- 
2.43.0


From edd5da5f6156523c670ee6e73182c88bc7e443cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:49 +0000
Subject: [PATCH 46/93] fix: OilBudgetOutput uses the on and cache it is given

---
 py_gnome/gnome/outputters/oil_budget.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/oil_budget.py b/py_gnome/gnome/outputters/oil_budget.py
index 665c5ee..12bf778 100644
--- a/py_gnome/gnome/outputters/oil_budget.py
+++ b/py_gnome/gnome/outputters/oil_budget.py
@@ -72,8 +72,8 @@ class OilBudgetOutput(BaseMassBalanceOutputter, OutputterFilenameMixin):
         self.file_format = file_format
 
         super(OilBudgetOutput, self).__init__(filename=filename,
-                                              cache=None,
-                                              on=True,
+                                              cache=cache,
+                                              on=on,
                                               output_timestep=output_timestep,
                                               # these always should be this way for this
                                               # outputter
-- 
2.43.0


From d08ef351910fc06eca57d0f9b6446bb6c7940f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:49 +0000
Subject: [PATCH 47/93] fix: BinaryOutput zips the files there are when the
 last step is not one of them

---
 py_gnome/gnome/outputters/binary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/binary.py b/py_gnome/gnome/outputters/binary.py
index 10bdddf..181192f 100644
--- a/py_gnome/gnome/outputters/binary.py
+++ b/py_gnome/gnome/outputters/binary.py
@@ -158,7 +158,8 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
 
 
         if islast_step:
-            num_files = self.file_num + 1
+            # the last step does not have to be written
+            num_files = self.file_num + (1 if self._write_step else 0)
             self._zip_binary_files(num_files)
             self.cleaned_up = True
 
-- 
2.43.0


From 5e34b5b3510295167d34316d81d9e6e583a5a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:49 +0000
Subject: [PATCH 48/93] fix: BinaryOutput removes its own old files, and only
 those, before a run

---
 py_gnome/gnome/outputters/binary.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/py_gnome/gnome/outputters/binary.py b/py_gnome/gnome/outputters/binary.py
index 181192f..bc65074 100644
--- a/py_gnome/gnome/outputters/binary.py
+++ b/py_gnome/gnome/outputters/binary.py
@@ -5,7 +5,7 @@ For use in Gnome Analyst
 
 import os
 import copy
-from glob import glob
+from glob import glob, escape
 import zipfile
 
 import numpy as np
@@ -260,21 +260,11 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
             zipf.close()
 
     def clean_output_files(self):
-        if self.output_dir:
-            files = glob(os.path.join(self.output_dir,
-                                      '*FORCST.*'))
-            for f in files:
+        for kind in ('FORCST', 'UNCRTN'):
+            for f in glob(escape(self.name) + kind + '.*'):
                 try:
                     os.remove(f)
-                except:
-                    pass
-
-            files = glob(os.path.join(self.output_dir,
-                                      '*UNCRTN.*'))
-            for f in files:
-                try:
-                    os.remove(f)
-                except:
+                except OSError:
                     pass
 
     def post_model_run(self):
-- 
2.43.0


From 47facb3aa0f6914fed2f8e6424f4cc71814d0a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:49 +0000
Subject: [PATCH 49/93] fix: TrajectoryGeoJsonOutput files hold the forecast,
 it was overwritten by the uncertain elements

---
 py_gnome/gnome/outputters/geo_json.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/geo_json.py b/py_gnome/gnome/outputters/geo_json.py
index 1d9c25d..1ee3a95 100644
--- a/py_gnome/gnome/outputters/geo_json.py
+++ b/py_gnome/gnome/outputters/geo_json.py
@@ -163,8 +163,9 @@ class TrajectoryGeoJsonOutput(Outputter):
                        'uncertain': uc_geojson}
 
         if self.output_dir:
-            output_info['output_filename'] = str(self.output_to_file(c_geojson, step_num))
-            self.output_to_file(uc_geojson, step_num)
+            # one file for both, the sc_type of a feature tells which it is
+            all_geojson = FeatureCollection(c_features + uc_features)
+            output_info['output_filename'] = str(self.output_to_file(all_geojson, step_num))
 
         return output_info
 
-- 
2.43.0


From cb3998cf554ded4619228463908f9da1f527540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:49 +0000
Subject: [PATCH 50/93] fix: TrajectoryGeoJsonOutput honours round_data=False

---
 py_gnome/gnome/outputters/geo_json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/geo_json.py b/py_gnome/gnome/outputters/geo_json.py
index 1ee3a95..81fb1b5 100644
--- a/py_gnome/gnome/outputters/geo_json.py
+++ b/py_gnome/gnome/outputters/geo_json.py
@@ -199,7 +199,9 @@ class TrajectoryGeoJsonOutput(Outputter):
 
         # refactored to simply use the correct python type:
         if issubclass(data_array.dtype.type, float):
-            data = data_array.round(self.round_to).astype(float).tolist()
+            if self.round_data:
+                data_array = data_array.round(self.round_to)
+            data = data_array.astype(float).tolist()
         elif issubclass(data_array.dtype.type, np.integer):
             data = data_array.astype(int).tolist()
         else:
-- 
2.43.0


From 957fde14c04695806c606789e1f6655aa1eaf2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:49 +0000
Subject: [PATCH 51/93] fix: NetCDFOutput does not overwrite data when forecast
 and uncertain elements differ in number

---
 py_gnome/gnome/outputters/netcdf.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index 3d0bf86..b27b4bc 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -755,19 +755,25 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                     pc = rg_vars['particle_count']
                     pc[idx] = len(sc)
 
-                    _end_idx = self._start_idx + pc[idx]
+                    # the forecast and the uncertain elements may differ in
+                    # number, so each file has its own starting index
+                    _start_idx = len(rootgrp.dimensions['data'])
+                    _end_idx = _start_idx + len(sc)
+                    if not sc.uncertain:
+                        # for the next timestep
+                        self._start_idx = _end_idx
 
                     # add the data:
                     for var_name in self.arrays_to_output:
                         # special case positions:
                         if var_name == 'longitude':
-                            rg_vars['longitude'][self._start_idx:_end_idx] = sc['positions'][:, 0]
+                            rg_vars['longitude'][_start_idx:_end_idx] = sc['positions'][:, 0]
                         elif var_name == 'latitude':
-                            rg_vars['latitude'][self._start_idx:_end_idx] = sc['positions'][:, 1]
+                            rg_vars['latitude'][_start_idx:_end_idx] = sc['positions'][:, 1]
                         elif var_name == 'depth':
-                            rg_vars['depth'][self._start_idx:_end_idx] = sc['positions'][:, 2]
+                            rg_vars['depth'][_start_idx:_end_idx] = sc['positions'][:, 2]
                         else:
-                            rg_vars[var_name][self._start_idx:_end_idx] = sc[var_name]
+                            rg_vars[var_name][_start_idx:_end_idx] = sc[var_name]
 
                     # write mass_balance data
                     if sc.mass_balance:
@@ -790,8 +796,6 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
         if not self._write_step:
             return None
 
-        self._start_idx = _end_idx  # set _start_idx for the next timestep
-
         return {'filename': (self.filename,
                              self._u_filename),
                 'time_stamp': time_stamp.isoformat()}
-- 
2.43.0


From 3e4ca1f63512e1b806822b5cfa0c7a7d0c286817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:49 +0000
Subject: [PATCH 52/93] fix: NetCDFOutput.read_data() finds the closest time of
 a run backwards in time

---
 py_gnome/gnome/outputters/netcdf.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index b27b4bc..2ed0795 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -950,11 +950,7 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                 if time is not None:
                     time_offset = nc.date2num(time, time_.units,
                                               calendar=time_.calendar)
-                    if time_offset < 0:
-                        'desired time is before start of model'
-                        index = 0
-                    else:
-                        index = abs(time_[:] - time_offset).argmin()
+                    index = abs(time_[:] - time_offset).argmin()
                 elif index is not None:
                     if index < 0:
                         index = len(time_) + index
-- 
2.43.0


From 0cd6794a751fd62dcf44ff492c2bf0cfc9b6712f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:55 +0000
Subject: [PATCH 53/93] fix: NetCDFOutput writes to the filename it is given
 after it was created, and a saved one that zips its output keeps its data

---
 py_gnome/gnome/outputters/netcdf.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index 2ed0795..777e9f1 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -346,17 +346,11 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                                            # _middle_of_run,
                                            **kwargs)
 
-        name, ext = os.path.splitext(self.filename)
-        self._u_filename = '{0}_uncertain{1}'.format(name, ext)
-        self.forecast_filename = self.filename
-        self.zip_filename = '{0}.{1}'.format(name, 'zip')
-
         # fixme: move to base class?
         self.name = os.path.split(filename)[1]
 
         self.zip_output = zip_output
-        if self.zip_output is True:
-            self.filename = self.zip_filename
+        self.filename = filename
 
         if which_data.lower() in self.which_data_lu:
             self._which_data = which_data.lower()
@@ -395,6 +389,27 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                                 'time': {'units': ''}
                                 }
 
+    @property
+    def filename(self):
+        return self._filename
+
+    @filename.setter
+    def filename(self, new_name):
+        OutputterFilenameMixin.filename.fset(self, new_name)
+
+        zip_output = getattr(self, 'zip_output', False)
+        name, ext = os.path.splitext(new_name)
+        if zip_output is True and ext == '.zip':
+            # this is the archive -- it is the name of a zipped outputter
+            ext = '.nc'
+
+        self._u_filename = '{0}_uncertain{1}'.format(name, ext)
+        self.forecast_filename = name + ext
+        self.zip_filename = '{0}.{1}'.format(name, 'zip')
+
+        if zip_output is True:
+            self._filename = self.zip_filename
+
     @property
     def uncertain_filename(self):
         '''
-- 
2.43.0


From 3bfe47fc584d1a5d2bbd5b8176301159dc49a50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:55 +0000
Subject: [PATCH 54/93] fix: NetCDFOutput chooses the arrays to write anew for
 every run

---
 py_gnome/gnome/outputters/netcdf.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index 777e9f1..1d89d0e 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -359,6 +359,8 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                              '{"standard", "most", "all"}')
 
         self.arrays_to_output = set(self.standard_arrays)
+        self._added_arrays = set()
+        self._removed_arrays = set()
 
         # this is only updated in prepare_for_model_run if which_data is
         # 'all' or 'most'
@@ -512,6 +514,12 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
 
     def _update_arrays_to_output(self, sc):
         'create list of variables that we want to put in the file'
+        # start again from what was asked for, not from what the previous
+        # run happened to have
+        self.arrays_to_output -= self._added_arrays
+        self.arrays_to_output |= self._removed_arrays
+        requested = set(self.arrays_to_output)
+
         if self.which_data in ('all', 'most'):
             # get shape and dtype from initailized numpy arrays instead
             # of array_types because some array type shapes are None
@@ -533,6 +541,9 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                 to_remove.add(var_name)
         self.arrays_to_output -= to_remove
 
+        self._added_arrays = self.arrays_to_output - requested
+        self._removed_arrays = requested - self.arrays_to_output
+
     def prepare_for_model_run(self,
                               model_start_time,
                               spills,
-- 
2.43.0


From b4bcfc750a3e26d0fc1004139f2ba8edba95e2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:49 +0000
Subject: [PATCH 55/93] fix: ShapeOutput bundles all files of a shapefile that
 is not zipped

---
 py_gnome/gnome/outputters/shape.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/py_gnome/gnome/outputters/shape.py b/py_gnome/gnome/outputters/shape.py
index 0a9a4a5..c3d091b 100644
--- a/py_gnome/gnome/outputters/shape.py
+++ b/py_gnome/gnome/outputters/shape.py
@@ -235,21 +235,18 @@ class ShapeOutput(Outputter):
         zipf_filename = os.path.join(self.tempdir.name, self.filenamestem)+'_bundle.zip'
         zipf = zipfile.ZipFile(zipf_filename, 'w')
         # Add the main forcast file
-        dir, file_to_zip = os.path.split(self.shapefile_builder_certain.filename)
-        zipf.write(self.shapefile_builder_certain.filename,
-                   arcname=file_to_zip)
+        builders = [self.shapefile_builder_certain]
         if self.include_certain_boundary:
-            dir, file_to_zip = os.path.split(self.shapefile_builder_certain_boundary.filename)
-            zipf.write(self.shapefile_builder_certain_boundary.filename,
-                       arcname=file_to_zip)
+            builders.append(self.shapefile_builder_certain_boundary)
         if uncertain:
-            dir, file_to_zip = os.path.split(self.shapefile_builder_uncertain.filename)
-            zipf.write(self.shapefile_builder_uncertain.filename,
-                       arcname=file_to_zip)
+            builders.append(self.shapefile_builder_uncertain)
             if self.include_uncertain_boundary:
-                dir, file_to_zip = os.path.split(self.shapefile_builder_uncertain_boundary.filename)
-                zipf.write(self.shapefile_builder_uncertain_boundary.filename,
-                           arcname=file_to_zip)
+                builders.append(self.shapefile_builder_uncertain_boundary)
+        for builder in builders:
+            # a shapefile that is not zipped is a set of files: .shp, .dbf ...
+            fn = builder.filename
+            for f in sorted(fn.parent.glob(fn.with_suffix('.*').name)):
+                zipf.write(f, arcname=f.name)
         zipf.close()
         return zipf_filename
 
-- 
2.43.0


From 62778e692a94e2a97cbb3002ef6eb63fb60d712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:56 +0000
Subject: [PATCH 56/93] fix: BinaryOutput writes to its filename, also when
 that is set after it was created

---
 py_gnome/gnome/outputters/binary.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/py_gnome/gnome/outputters/binary.py b/py_gnome/gnome/outputters/binary.py
index bc65074..e360988 100644
--- a/py_gnome/gnome/outputters/binary.py
+++ b/py_gnome/gnome/outputters/binary.py
@@ -85,6 +85,11 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
         self.cleaned_up = False  # so that we can guard against post_model_run being called twice.
 
 
+    @property
+    def _base_name(self):
+        'path of the output files, without what is added for each of them'
+        return os.path.splitext(self.filename)[0]
+
     def prepare_for_model_run(self,
                               model_start_time,
                               spills,
@@ -147,10 +152,10 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
                 # extract the data
                 if sc.uncertain:
                     #self._u_filename = '{0}UNCRTN.{1:03d}'.format(self.name,self.file_num)
-                    filename = '{0}UNCRTN.{1:03d}'.format(self.name,self.file_num)
+                    filename = '{0}UNCRTN.{1:03d}'.format(self._base_name, self.file_num)
                 else:
                     #self._c_filename = '{0}FORCST.{1:03d}'.format(self.name,self.file_num)
-                    filename = '{0}FORCST.{1:03d}'.format(self.name,self.file_num)
+                    filename = '{0}FORCST.{1:03d}'.format(self._base_name, self.file_num)
 
                 self._file_exists_error(filename)
 
@@ -241,17 +246,17 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
 
     def _zip_binary_files(self, num_files):
         if self.zip_output is True:
-            zfilename = self.name + '.zip'
+            zfilename = self._base_name + '.zip'
             zipf = zipfile.ZipFile(zfilename, 'w')
 
             for file_num in range(0, num_files):
-                forcst_file = '{0}FORCST.{1:03d}'.format(self.name,file_num)
+                forcst_file = '{0}FORCST.{1:03d}'.format(self._base_name, file_num)
                 dir, file_to_zip = os.path.split(forcst_file)
                 zipf.write(forcst_file,
                            arcname=file_to_zip)
                 os.remove(forcst_file)
                 if self.uncertain is True:
-                    uncrtn_file = '{0}UNCRTN.{1:03d}'.format(self.name,file_num)
+                    uncrtn_file = '{0}UNCRTN.{1:03d}'.format(self._base_name, file_num)
                     dir, file_to_zip = os.path.split(uncrtn_file)
                     zipf.write(uncrtn_file,
                                arcname=file_to_zip)
@@ -261,7 +266,7 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
 
     def clean_output_files(self):
         for kind in ('FORCST', 'UNCRTN'):
-            for f in glob(escape(self.name) + kind + '.*'):
+            for f in glob(escape(self._base_name) + kind + '.*'):
                 try:
                     os.remove(f)
                 except OSError:
-- 
2.43.0


From af6b46e2a91907637500bce101e748fab65a10c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:56 +0000
Subject: [PATCH 57/93] fix: ShapeOutput writes to the filename it is given
 after it was created

---
 py_gnome/gnome/outputters/shape.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/outputters/shape.py b/py_gnome/gnome/outputters/shape.py
index c3d091b..b9474bb 100644
--- a/py_gnome/gnome/outputters/shape.py
+++ b/py_gnome/gnome/outputters/shape.py
@@ -74,8 +74,6 @@ class ShapeOutput(Outputter):
         else:
             # Else we return .shp
             self.filename = pathlib_path.with_suffix('.shp')
-        self.filenamestem = pathlib_path.stem
-        self.filedir = str(pathlib_path.parent)
         # A temp dir used to do our work...
         self.tempdir = tempfile.TemporaryDirectory(prefix='gnome.')
         # We will be building shapefiles, so come up with names in the temp dir
@@ -113,6 +111,16 @@ class ShapeOutput(Outputter):
                                                                              timeoffset=self.timeoffset)
 
 
+    @property
+    def filename(self):
+        return self._filename
+
+    @filename.setter
+    def filename(self, new_name):
+        self._filename = pathlib.Path(new_name)
+        self.filenamestem = self._filename.stem
+        self.filedir = str(self._filename.parent)
+
     def __del__(self):
         self.tempdir.cleanup()
 
@@ -219,13 +227,13 @@ class ShapeOutput(Outputter):
                 fn = self.shapefile_builder_certain.filename
                 for f in fn.parent.glob(fn.with_suffix('.*').name):
                     pathlib_path = pathlib.Path(f)
-                    stem = pathlib_path.stem.removesuffix('_certain')
+                    stem = self.filenamestem
                     suffix = pathlib_path.suffix
                     shutil.copy(f, pathlib.Path(self.filedir, stem + suffix))
                 fn = self.shapefile_builder_certain_boundary.filename
                 for f in fn.parent.glob(fn.with_suffix('.*').name):
                     pathlib_path = pathlib.Path(f)
-                    stem = pathlib_path.stem.removesuffix('_certain_boundary') + '_boundary'
+                    stem = self.filenamestem + '_boundary'
                     suffix = pathlib_path.suffix
                     shutil.copy(f, pathlib.Path(self.filedir, stem + suffix))
 
-- 
2.43.0


From a42df69dd5411d918f4b767511dde85ad374963b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:45 +0000
Subject: [PATCH 58/93] fix: ElementCache drops what was stored before for a
 step saved again

---
 py_gnome/gnome/utilities/cache.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_gnome/gnome/utilities/cache.py b/py_gnome/gnome/utilities/cache.py
index 6b165fb..61aa83a 100644
--- a/py_gnome/gnome/utilities/cache.py
+++ b/py_gnome/gnome/utilities/cache.py
@@ -146,6 +146,11 @@ class ElementCache():
             else:
                 # this creates a new dict, so only one step is saved
                 self.recent = {step_num: [data, None]}
+                # whatever was stored for this step before is out of date
+                for old in (self._make_filename(step_num),
+                            self._make_filename(step_num, True)):
+                    if os.path.exists(old):
+                        os.remove(old)
 
             # write the data if enabled
             # could be threaded -- data is a copy, so doesn't need to be
-- 
2.43.0


From 8946e999bbff54afa59376187606b05d176a8eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:08 +0000
Subject: [PATCH 59/93] fix: PolygonSets that divide the same points
 differently are not equal

---
 py_gnome/gnome/utilities/geometry/polygons.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_gnome/gnome/utilities/geometry/polygons.py b/py_gnome/gnome/utilities/geometry/polygons.py
index 3dbd25d..5f45da5 100644
--- a/py_gnome/gnome/utilities/geometry/polygons.py
+++ b/py_gnome/gnome/utilities/geometry/polygons.py
@@ -369,6 +369,7 @@ class PolygonSet(object):
             return False
         else:
             return (np.array_equal(self._PointsArray, other._PointsArray) and
+                    np.array_equal(self._IndexArray, other._IndexArray) and
                     self._MetaDataList == other._MetaDataList)
 
     def __ne__(self, other):
-- 
2.43.0


From 8f578b68a0722c6c518cc74e07a73b7d86fee9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:22 +0000
Subject: [PATCH 60/93] fix: PolygonSet.SetPointsData works without metadata,
 and metadata stays a list

---
 py_gnome/gnome/utilities/geometry/polygons.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/utilities/geometry/polygons.py b/py_gnome/gnome/utilities/geometry/polygons.py
index 5f45da5..6f19288 100644
--- a/py_gnome/gnome/utilities/geometry/polygons.py
+++ b/py_gnome/gnome/utilities/geometry/polygons.py
@@ -203,7 +203,7 @@ class PolygonSet(object):
         else:
             self._PointsArray = np.array(data[0])
             self._IndexArray = np.array(data[1])
-            self._MetaDataList = np.array(data[2])
+            self._MetaDataList = list(data[2])
 
     def append(self, polygon, metadata=None):
 
@@ -290,9 +290,9 @@ class PolygonSet(object):
         self._PointsArray = np.array(PointData[0], self.dtype)
         self._IndexArray = np.array(PointData[1], dtype=np.int32)
         if MetaData is not None:
-            self._DataArray = MetaData
+            self._MetaDataList = list(MetaData)
         else:
-            self._DataArray = [None] * len(self.PointsArray)
+            self._MetaDataList = [{} for _ in range(len(self))]
 
     def Copy(self):
         """
-- 
2.43.0


From a4c64a0b64e050b8c07ece9b57cca1084327affc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:09 +0000
Subject: [PATCH 61/93] fix: the gridded WindMover does not move submerged
 elements

---
 py_gnome/gnome/movers/py_wind_movers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/movers/py_wind_movers.py b/py_gnome/gnome/movers/py_wind_movers.py
index a558857..4cdea0e 100644
--- a/py_gnome/gnome/movers/py_wind_movers.py
+++ b/py_gnome/gnome/movers/py_wind_movers.py
@@ -430,7 +430,9 @@ class WindMover(movers.PyMover):
         positions = sc['positions']
 
         if self.active and len(positions) > 0:
-            status = sc['status_codes'] != oil_status.in_water
+            # the wind only moves what is floating on the surface
+            status = ((sc['status_codes'] != oil_status.in_water) |
+                      (positions[:, 2] > 0))
             pos = positions[:]
 
             deltas = self.delta_method(num_method)(sc, time_step, model_time_datetime, pos, self.wind)
-- 
2.43.0


From 2e0e750263f7ba346b2a4a5de532bcc89c16510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:22 +0000
Subject: [PATCH 62/93] fix: WindMover spreads uncertain elements in weak wind
 by the same law as PointWindMover

---
 py_gnome/gnome/movers/py_wind_movers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_wind_movers.py b/py_gnome/gnome/movers/py_wind_movers.py
index 4cdea0e..967cfc3 100644
--- a/py_gnome/gnome/movers/py_wind_movers.py
+++ b/py_gnome/gnome/movers/py_wind_movers.py
@@ -401,8 +401,8 @@ class WindMover(movers.PyMover):
                 if norm[i] < 1:
                     rand1 = np.random.uniform(-1., 1.)
                     rand2 = np.random.uniform(-1., 1.)
-                    deltas[i,0] = u[i] * self.uncertain_diffusion * rand1
-                    deltas[i,1] = v[i] * self.uncertain_diffusion * rand2
+                    deltas[i,0] = new_deltas[i,0] + self.uncertain_diffusion * rand1 * time_step
+                    deltas[i,1] = new_deltas[i,1] + self.uncertain_diffusion * rand2 * time_step
 
         else:
             raise ValueError("something wrong with uncertainty")
-- 
2.43.0


From fc97d1680ad699925fb629d2c1e38c17c263e072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:54 +0000
Subject: [PATCH 63/93] fix: RiseVelocityMover and RandomMover3D run backwards
 in time like the other movers

---
 py_gnome/gnome/cy_gnome/movers.pxd      | 4 ++--
 py_gnome/lib_gnome/RandomVertical_c.cpp | 8 ++++----
 py_gnome/lib_gnome/RiseVelocity_c.cpp   | 2 +-
 py_gnome/lib_gnome/RiseVelocity_c.h     | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/py_gnome/gnome/cy_gnome/movers.pxd b/py_gnome/gnome/cy_gnome/movers.pxd
index 38a3d1c..8fa4bbd 100644
--- a/py_gnome/gnome/cy_gnome/movers.pxd
+++ b/py_gnome/gnome/cy_gnome/movers.pxd
@@ -44,7 +44,7 @@ cdef extern from "RandomVertical_c.h":
         double fHorizontalDiffusionCoefficientBelowML
         double fMixedLayerDepth
         bool bSurfaceIsAllowed
-        OSErr get_move(int n, unsigned long model_time, unsigned long step_len,
+        OSErr get_move(int n, unsigned long model_time, long step_len,
                        WorldPoint3D* ref, WorldPoint3D* delta,
                        short* LE_status, LEType spillType, long spillID)
 
@@ -58,7 +58,7 @@ cdef extern from "RiseVelocity_c.h":
         RiseVelocity_c() except +
         # double water_density
         # double water_viscosity
-        OSErr get_move(int n, unsigned long model_time, unsigned long step_len,
+        OSErr get_move(int n, unsigned long model_time, long step_len,
                        WorldPoint3D* ref, WorldPoint3D* delta,
                        double* rise_velocity,
                        short* LE_status, LEType spillType, long spillID)
diff --git a/py_gnome/lib_gnome/RandomVertical_c.cpp b/py_gnome/lib_gnome/RandomVertical_c.cpp
index 6abcca6..a668659 100644
--- a/py_gnome/lib_gnome/RandomVertical_c.cpp
+++ b/py_gnome/lib_gnome/RandomVertical_c.cpp
@@ -131,9 +131,9 @@ WorldPoint3D RandomVertical_c::GetMove (const Seconds& model_time, Seconds timeS
 		rand1 = GetRandomFloat(-1.0, 1.0);
 		rand2 = GetRandomFloat(-1.0, 1.0);
 		if ((*theLE).z>mixedLayerDepth)
-			horizontalDiffusionCoefficient = sqrt(6.*(fHorizontalDiffusionCoefficientBelowML/10000.)*timeStep)/METERSPERDEGREELAT;
+			horizontalDiffusionCoefficient = sqrt(6.*(fHorizontalDiffusionCoefficientBelowML/10000.)*fabs(timeStep))/METERSPERDEGREELAT;
 		else
-			horizontalDiffusionCoefficient = sqrt(6.*(fHorizontalDiffusionCoefficient/10000.)*timeStep)/METERSPERDEGREELAT;
+			horizontalDiffusionCoefficient = sqrt(6.*(fHorizontalDiffusionCoefficient/10000.)*fabs(timeStep))/METERSPERDEGREELAT;
 		dLong = (rand1 * horizontalDiffusionCoefficient )/ LongToLatRatio3 (refPoint.pLat);
 		dLat  = rand2 * horizontalDiffusionCoefficient;		
 		
@@ -151,7 +151,7 @@ WorldPoint3D RandomVertical_c::GetMove (const Seconds& model_time, Seconds timeS
 		if ((*theLE).z<=mixedLayerDepth)
 		{
 			if (fVerticalDiffusionCoefficient==0) return deltaPoint;	
-			verticalDiffusionCoefficient = sqrt(6.*(fVerticalDiffusionCoefficient/10000.)*timeStep);
+			verticalDiffusionCoefficient = sqrt(6.*(fVerticalDiffusionCoefficient/10000.)*fabs(timeStep));
 			rand = GetRandomFloat(-1.0, 1.0);
 			deltaPoint.z = rand*verticalDiffusionCoefficient;
 			//z = deltaPoint.z;	// will add this on to the next move
@@ -176,7 +176,7 @@ WorldPoint3D RandomVertical_c::GetMove (const Seconds& model_time, Seconds timeS
 		if (mixedLayerDepth==depthAtPoint) /*return deltaPoint*/goto dochecks;	// in this case don't need to do anything more
 		// now apply below mixed layer depth diffusion to all particles above and below
 		if (fVerticalBottomDiffusionCoefficient==0/* && z==0*/) /*return deltaPoint*/goto dochecks;	// don't return until do checks
-		verticalDiffusionCoefficient = sqrt(6.*(fVerticalBottomDiffusionCoefficient/10000.)*timeStep);
+		verticalDiffusionCoefficient = sqrt(6.*(fVerticalBottomDiffusionCoefficient/10000.)*fabs(timeStep));
 		rand = GetRandomFloat(-1.0, 1.0);
 		deltaPoint.z = rand*verticalDiffusionCoefficient;
 		
diff --git a/py_gnome/lib_gnome/RiseVelocity_c.cpp b/py_gnome/lib_gnome/RiseVelocity_c.cpp
index ce59bc0..471c532 100644
--- a/py_gnome/lib_gnome/RiseVelocity_c.cpp
+++ b/py_gnome/lib_gnome/RiseVelocity_c.cpp
@@ -151,7 +151,7 @@ double GetDropletSize(double riseVelocity, double water_viscosity, double water_
 	return y1;
 }
 
-OSErr RiseVelocity_c::get_move(int n, unsigned long model_time, unsigned long step_len,
+OSErr RiseVelocity_c::get_move(int n, unsigned long model_time, long step_len,
 							   WorldPoint3D *ref, WorldPoint3D *delta,
 							   double *rise_velocity,
 							   short *LE_status, LEType spillType, long spill_ID)
diff --git a/py_gnome/lib_gnome/RiseVelocity_c.h b/py_gnome/lib_gnome/RiseVelocity_c.h
index 3352092..f1a7e3c 100644
--- a/py_gnome/lib_gnome/RiseVelocity_c.h
+++ b/py_gnome/lib_gnome/RiseVelocity_c.h
@@ -39,7 +39,7 @@ public:
 	virtual WorldPoint3D GetMove(const Seconds& model_time, Seconds timeStep,
 								 long setIndex, long leIndex, LERec *theLE, LETYPE leType);
 
-	OSErr get_move(int n, unsigned long model_time, unsigned long step_len,
+	OSErr get_move(int n, unsigned long model_time, long step_len,
 				   WorldPoint3D *ref, WorldPoint3D *delta,
 				  // double *rise_velocity, double *density, double *droplet_size,
 				   double *rise_velocity,
-- 
2.43.0


From 8e8903591531283835114a3652404d289743be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:32 +0000
Subject: [PATCH 64/93] fix: SecondsToDate gives standard time in the first
 hour of a summer time day

Between 23:00 and 24:00 standard time on days with daylight saving time the
hour was taken off the copy of the seconds that is not used, so the date was
an hour late and on the wrong day, and tides depended on the local time zone.
---
 py_gnome/lib_gnome/StringFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/StringFunctions.cpp b/py_gnome/lib_gnome/StringFunctions.cpp
index 2d99f5c..16d5412 100644
--- a/py_gnome/lib_gnome/StringFunctions.cpp
+++ b/py_gnome/lib_gnome/StringFunctions.cpp
@@ -1939,7 +1939,7 @@ void SecondsToDate (Seconds seconds, DateTimeRec *date)
 			if (newTime->tm_hour > 0)
 				newTime->tm_hour--;
 			else {
-				seconds -= 3600;
+				converted_seconds -= 3600;
 				newTime = localtime(&converted_seconds);
 
 				if (newTime->tm_isdst == 1) {
-- 
2.43.0


From 1424e24024240ce9d85cd86d66d92accbb90e860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:32 +0000
Subject: [PATCH 65/93] fix: TZOffset and Wind round a time zone offset instead
 of truncating it

An offset of 61 minutes is not exactly representable in hours and lost a
minute (or a second of a wind time series).
---
 py_gnome/gnome/environment/wind.py     | 2 +-
 py_gnome/gnome/utilities/time_utils.py | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 3173301..d603409 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -398,7 +398,7 @@ class Wind(Timeseries, Environment):
             tzo = TZOffset(offset=None, title="No Timezone Specified")
         if self._timezone_offset and self._timezone_offset.offset is not None:
             if tzo.offset is not None:
-                off = int((tzo.offset - self._timezone_offset.offset) * 3600)
+                off = round((tzo.offset - self._timezone_offset.offset) * 3600)
                 off = np.timedelta64(off, 's')
                 new_ts = np.zeros((len(self.timeseries), ), dtype=datetime_value_2d)
                 new_ts['time'] = self.timeseries['time'] + off
diff --git a/py_gnome/gnome/utilities/time_utils.py b/py_gnome/gnome/utilities/time_utils.py
index 4e48b37..c7ceb6b 100644
--- a/py_gnome/gnome/utilities/time_utils.py
+++ b/py_gnome/gnome/utilities/time_utils.py
@@ -75,7 +75,7 @@ class TZOffset:
         if self.offset is None:
             return timedelta(0)
         else:
-            return timedelta(minutes=int(self.offset * 60))
+            return timedelta(minutes=round(self.offset * 60))
 
     def as_iso_string(self):
         """
@@ -91,8 +91,7 @@ class TZOffset:
             return ""
         else:
             sign = "-" if self.offset <0 else "+"
-            hours = int(abs(self.offset))
-            minutes = int((abs(self.offset) - hours) * 60)
+            hours, minutes = divmod(round(abs(self.offset) * 60), 60)
             return f"{sign}{hours:0>2}:{minutes:0>2}"
 
 
-- 
2.43.0


From be61ccb56f26e8824850c3f10cd579acf403aeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:32 +0000
Subject: [PATCH 66/93] fix: changing the time zone of an instantaneous release
 keeps it instantaneous

With no end_release_time the end was set from the already moved release_time,
which made the release a continuous one or raised ValueError.
---
 py_gnome/gnome/spills/release.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 92ab4f4..315c3ef 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -245,7 +245,8 @@ class Release(GnomeId):
                 #but only if the new value is not None
                 off =  timedelta(hours=tzo.offset) - timedelta(hours=self._timezone_offset.offset)
                 self.release_time = self.release_time + off
-                self.end_release_time = self.end_release_time + off
+                if self._end_release_time is not None:
+                    self.end_release_time = self._end_release_time + off
         self._timezone_offset = tzo
         
     def __repr__(self):
-- 
2.43.0


From b1d79567660019d2269b5aaca1903868c00c22cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:45 +0000
Subject: [PATCH 67/93] fix: recalculated densities were lost unless every
 element was at the surface

recalc_density() iterates over the surface_weather view but wrote back the
'all' view, so with any submerged, beached or marked element the density of
the weathered elements stayed what it was at release.
---
 py_gnome/gnome/ops/density.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/ops/density.py b/py_gnome/gnome/ops/density.py
index 2fb9f68..b15da9a 100644
--- a/py_gnome/gnome/ops/density.py
+++ b/py_gnome/gnome/ops/density.py
@@ -104,7 +104,8 @@ def recalc_density(sc, water=None, aggregate=True):
             data['density'] = new_rho
             data['oil_density'] = oil_rho
 
-    sc.update_from_fatedataview(fate_status='all')
+    # the data of itersubstancedata() above are those of the surface elements
+    sc.update_from_fatedataview(fate_status='surface_weather')
 
     # also initialize/update aggregated sc
     if aggregate:
-- 
2.43.0


From 0661b948a5c2ef8a318f8e46119a9553adc8a6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:40 +0000
Subject: [PATCH 68/93] fix: NaturalDispersion ignored the unit of the
 kinematic viscosity of the water

---
 py_gnome/gnome/weatherers/natural_dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/natural_dispersion.py b/py_gnome/gnome/weatherers/natural_dispersion.py
index 45ac300..9941a45 100644
--- a/py_gnome/gnome/weatherers/natural_dispersion.py
+++ b/py_gnome/gnome/weatherers/natural_dispersion.py
@@ -109,7 +109,7 @@ class NaturalDispersion(Weatherer):
             frac_breaking_waves = waves_values[2]
             disp_wave_energy = waves_values[3]
 
-            visc_w = self.waves.water.kinematic_viscosity
+            visc_w = self.waves.water.get('kinematic_viscosity')
             rho_w = self.waves.water.density
 
             # web has different units
-- 
2.43.0


From 63054dc1075487920b91d2643db0a4a6b2e7262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:41 +0000
Subject: [PATCH 69/93] fix: an oil kept answering with the viscosity and
 vapour pressure of data it no longer holds

The constants of the viscosity curve and the (lru_cached) vapour pressure
were not computed again after kvis or boiling_point had been changed, by
attribute or by update_from_dict().
---
 py_gnome/gnome/spills/gnome_oil.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/spills/gnome_oil.py b/py_gnome/gnome/spills/gnome_oil.py
index 9b9fbd5..39cec90 100644
--- a/py_gnome/gnome/spills/gnome_oil.py
+++ b/py_gnome/gnome/spills/gnome_oil.py
@@ -1,5 +1,3 @@
-from functools import lru_cache
-
 import numpy as np
 import warnings
 
@@ -299,6 +297,7 @@ class GnomeOil(Substance):
 
         self._k_v2 = None  # decay constant for viscosity curve
         self._visc_A = None  # constant for viscosity curve
+        self._visc_data = None  # the data the constants are computed from
         self.k0y = k0y
 
         return kwargs
@@ -372,7 +371,6 @@ class GnomeOil(Substance):
                              "are pseudo components".format(prop))
         setattr(self, prop, np.array(values, dtype=np.float64))
 
-    @lru_cache(2)
     def vapor_pressure(self, temp, atmos_pressure=101325.0):
         """
         the vapor pressure on the PCs at a given temperature
@@ -678,8 +676,14 @@ class GnomeOil(Substance):
 
         temp_k = np.asarray(temp_k)
 
-        if self._k_v2 is None or self._visc_A is None:
+        # the constants have to follow the data, should those be changed
+        visc_data = tuple(map(tuple, (self.kvis,
+                                      self.kvis_ref_temps,
+                                      self.kvis_weathering)))
+        if (self._k_v2 is None or self._visc_A is None
+                or visc_data != self._visc_data):
             self.determine_visc_constants()
+            self._visc_data = visc_data
 
         return self._visc_A * np.exp(self._k_v2 / temp_k)
 
-- 
2.43.0


From 621091a15c8f7f5ff34a423f214d89e1ac39dab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:32 +0000
Subject: [PATCH 70/93] fix: Li2017 dispersion made the mass NaN once the oil
 was as heavy as the water

---
 py_gnome/gnome/weatherers/natural_dispersion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/natural_dispersion.py b/py_gnome/gnome/weatherers/natural_dispersion.py
index 9941a45..dbaa2ce 100644
--- a/py_gnome/gnome/weatherers/natural_dispersion.py
+++ b/py_gnome/gnome/weatherers/natural_dispersion.py
@@ -209,7 +209,10 @@ class NaturalDispersion(Weatherer):
         sigma_o_w = 3.5e-2 # unit N/m
         H0 = wave_height / 0.707 # significant wave height
 
-        d_oil = 4.0 * np.sqrt(sigma_o_w / (constants.gravity * (rho_w - density))) # maximum stable droplet diameter
+        # oil as heavy as the water would make the droplet size infinite and the
+        # dispersed mass NaN
+        delta_rho = np.maximum(rho_w - density, 1.0e-3)
+        d_oil = 4.0 * np.sqrt(sigma_o_w / (constants.gravity * delta_rho)) # maximum stable droplet diameter
         dynamic_visc = viscosity * density
 
         # parameter values estimated by Li et al., (2017)
-- 
2.43.0


From 81a40d771ac42ea382cb0a3fce28063303d4dce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:28 +0000
Subject: [PATCH 71/93] fix: sedimentation of oil as heavy as the water in a
 calm made the mass NaN

---
 py_gnome/gnome/weatherers/natural_dispersion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/weatherers/natural_dispersion.py b/py_gnome/gnome/weatherers/natural_dispersion.py
index dbaa2ce..9f54842 100644
--- a/py_gnome/gnome/weatherers/natural_dispersion.py
+++ b/py_gnome/gnome/weatherers/natural_dispersion.py
@@ -265,7 +265,8 @@ class NaturalDispersion(Weatherer):
         Q_sed = (1.6 * ka * np.sqrt(wave_height * disp_wave_energy * frac_breaking_waves / (rho_w * visc_w)) * C_oil * sediment)
 
 
-        s_mask = np.logical_and(sediment > 0.0, thickness >= 1.0e-4)
+        # (no waves, no sedimentation: C_oil can be 0 / 0 then)
+        s_mask = (sediment > 0.0) & (thickness >= 1.0e-4) & (wave_height > 0.0)
         sed_out[s_mask] = (1.0 - frac_water[s_mask]) * Q_sed[s_mask] * time_step
 
         s_mask = (disp_out + sed_out) > mass
@@ -334,7 +335,8 @@ class NaturalDispersion(Weatherer):
 
             # sedimentation computation below
             droplet = 0.613 * thickness
-            if sediment > 0.0 and thickness >= 1.0e-4:
+            # (no waves, no sedimentation: C_oil can be 0 / 0 then)
+            if sediment > 0.0 and thickness >= 1.0e-4 and H_rms[i] > 0.0:
                # droplet average rising velocity
                speed = (droplet * droplet * constants.gravity * (1.0 - rho / rho_w) / (18.0 * visc_w))
 
-- 
2.43.0


From 633be23afd81d32c30b173e2f5a41414ae1c433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:42 +0000
Subject: [PATCH 72/93] fix: time offset and gaps between files are lost in the
 time weight of triangular and curvilinear currents

The time weight computed with the offset (and with the last record of the
previous file, in a gap between two files) was always overwritten by the one
meant for cycle movers, which knows neither: with a time_offset the velocity
was extrapolated from the wrong times, and between two files of a list the
record before the first one was read.
---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 933dbe1..29b54cd 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -2835,7 +2835,7 @@ VelocityRec TimeGridVelCurv_c::GetInterpolatedValue(const Seconds& model_time, I
 		timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 		
 		// Calculate the time weight factor
-		if (fTimeAlpha==-1)
+		if (bIsCycleMover && fTimeAlpha==-1)
 		{
 			//Seconds relTime = time - model->GetStartTime();
 			relTime = model_time - fModelStartTime;
@@ -2844,7 +2844,7 @@ VelocityRec TimeGridVelCurv_c::GetInterpolatedValue(const Seconds& model_time, I
 			//timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 			timeAlpha = (endTime - relTime)/(double)(endTime - startTime);
 		}
-		else
+		else if (bIsCycleMover)
 			timeAlpha = fTimeAlpha;
 
 		if (pt1depthIndex1!=-1)
@@ -7799,7 +7799,7 @@ VelocityRec TimeGridVelIce_c::GetInterpolatedValue(const Seconds& model_time, In
 		timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 		
 		// Calculate the time weight factor
-		if (fTimeAlpha==-1)
+		if (bIsCycleMover && fTimeAlpha==-1)
 		{
 			//Seconds relTime = time - model->GetStartTime();
 			relTime = model_time - fModelStartTime;
@@ -7808,7 +7808,7 @@ VelocityRec TimeGridVelIce_c::GetInterpolatedValue(const Seconds& model_time, In
 			//timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 			timeAlpha = (endTime - relTime)/(double)(endTime - startTime);
 		}
-		else
+		else if (bIsCycleMover)
 			timeAlpha = fTimeAlpha;
 
 		pt1interp.u = interpolationVal.alpha1*(timeAlpha*INDEXH(fStartData.dataHdl,ptIndex1).u + (1-timeAlpha)*INDEXH(fEndData.dataHdl,ptIndex1).u); 
@@ -8803,7 +8803,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue(const Seconds& model_time, World
 		
 		// Calculate the time weight factor
  		// fModelStartTime needs to be set in the mover
-		if (fTimeAlpha==-1)
+		if (bIsCycleMover && fTimeAlpha==-1)
 		{
 			//Seconds relTime = time - model->GetStartTime();
 			relTime = model_time - fModelStartTime;
@@ -8812,7 +8812,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue(const Seconds& model_time, World
 			//timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 			timeAlpha = (endTime - relTime)/(double)(endTime - startTime);
 		}
-		else
+		else if (bIsCycleMover)
 			timeAlpha = fTimeAlpha;
 
 		// Calculate the interpolated velocity at the point
@@ -8972,7 +8972,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue3D(const Seconds& model_time, Int
 		timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 		
 		// Calculate the time weight factor
-		if (fTimeAlpha==-1)
+		if (bIsCycleMover && fTimeAlpha==-1)
 		{
 			//Seconds relTime = time - model->GetStartTime();
 			relTime = model_time - fModelStartTime;
@@ -8981,7 +8981,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue3D(const Seconds& model_time, Int
 			//timeAlpha = (endTime - model_time)/(double)(endTime - startTime);
 			timeAlpha = (endTime - relTime)/(double)(endTime - startTime);
 		}
-		else
+		else if (bIsCycleMover)
 			timeAlpha = fTimeAlpha;
 
 		if (pt1depthIndex1!=-1)
-- 
2.43.0


From afc4320d713230fb6bbd719845fdd80d1517d0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:42 +0000
Subject: [PATCH 73/93] fix: no current in the first triangle of a grid with
 velocities on triangles

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 29b54cd..5807c4f 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -8779,7 +8779,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue(const Seconds& model_time, World
 		}
 		else	// if negative corresponds to negative ntri, set vel to zero
 		{
-			if (bVelocitiesOnTriangles && triIndex > 0)
+			if (bVelocitiesOnTriangles && triIndex >= 0)
 			{
 				scaledPatVelocity.u = INDEXH(fStartData.dataHdl,triIndex).u;
 				scaledPatVelocity.v = INDEXH(fStartData.dataHdl,triIndex).v;
@@ -8827,7 +8827,7 @@ VelocityRec TimeGridVelTri_c::GetScaledPatValue(const Seconds& model_time, World
 		}
 		else	// if negative corresponds to negative ntri, set vel to zero
 		{
-			if (bVelocitiesOnTriangles && triIndex > 0)
+			if (bVelocitiesOnTriangles && triIndex >= 0)
 			{
 				scaledPatVelocity.u = timeAlpha*INDEXH(fStartData.dataHdl,triIndex).u + (1-timeAlpha)*INDEXH(fEndData.dataHdl,triIndex).u;
 				scaledPatVelocity.v = timeAlpha*INDEXH(fStartData.dataHdl,triIndex).v + (1-timeAlpha)*INDEXH(fEndData.dataHdl,triIndex).v;
-- 
2.43.0


From 63486abcc521a7388bc7ade1c0a978130367d065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:42 +0000
Subject: [PATCH 74/93] fix: a triangular-grid current with one component
 exactly zero loses the other component

---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 5807c4f..205fb48 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -9841,7 +9841,7 @@ OSErr TimeGridVelTri_c::ReadTimeData(long index,VelocityFH *velocityH, char* err
 			 curr_uvals[j*fNumNodes+i]=0.;
 			 if (curr_vvals[j*fNumNodes+i]==fill_value)
 			 curr_vvals[j*fNumNodes+i]=0.;*/
-			if (curr_uvals[j*numVelsAtDepthLevel+i]==0.||curr_vvals[j*numVelsAtDepthLevel+i]==0.)
+			if (curr_uvals[j*numVelsAtDepthLevel+i]==0.&&curr_vvals[j*numVelsAtDepthLevel+i]==0.)
 				curr_uvals[j*numVelsAtDepthLevel+i] = curr_vvals[j*numVelsAtDepthLevel+i] = 1e-06;
 			if (curr_uvals[j*numVelsAtDepthLevel+i]==fill_value)
 				curr_uvals[j*numVelsAtDepthLevel+i]=0.;
-- 
2.43.0


From 03922922f7ac29a4f21038b1bf94f8388e6c7a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:04 +0000
Subject: [PATCH 75/93] fix: extrapolation uses the wrong end of the data when
 time jumps from one side of it to the other

A gridded current told to extrapolate keeps the record it extrapolates from.
Asked for a time before its data after one beyond them (a model run again, say),
it took the last record for the first one, and the other way round.
---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 205fb48..4818a48 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -439,7 +439,7 @@ Boolean TimeGridVel_c::CheckInterval(long &timeDataInterval, const Seconds& mode
 		}
 		if (fAllowExtrapolationInTime &&
 			fEndData.timeIndex == UNASSIGNEDINDEX &&
-			!(fStartData.timeIndex == UNASSIGNEDINDEX))	// way to recognize last interval is set
+			fStartData.timeIndex == 0)	// way to recognize first time is set
 		{
 			//check if time > last model time in all files
 			//timeDataInterval = 1;
@@ -462,7 +462,7 @@ Boolean TimeGridVel_c::CheckInterval(long &timeDataInterval, const Seconds& mode
 
 		if (fAllowExtrapolationInTime &&
 			fEndData.timeIndex == UNASSIGNEDINDEX &&
-			!(fStartData.timeIndex == UNASSIGNEDINDEX))	// way to recognize last interval is set
+			fStartData.timeIndex == numTimes - 1)	// way to recognize last time is set
 		{
 			//check if time > last model time in all files
 			return true;
-- 
2.43.0


From 1d3a0b9c26a9371a7554e542bd32654fdd43528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:15 +0000
Subject: [PATCH 76/93] fix: velocities of another file of a list are used
 after a jump in time

The records in memory are known by their index in the file they come from.
When time moved on to another file of the list the indices were compared with
those of the new file, so a record of the old file could be taken for one of
the new file; after a failure the state 'between two files' was kept without
any record in memory.
---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 4818a48..1f74718 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -1380,6 +1380,7 @@ done:
 		if(!errmsg[0])strcpy(errmsg,"Error in TimeGridVel::SetInterval()");
 		DisposeLoadedData(&fStartData);
 		DisposeLoadedData(&fEndData);
+		fOverLap = false;
 	}
 	return err;
 	
@@ -1389,7 +1390,7 @@ done:
 OSErr TimeGridVel_c::CheckAndScanFile(char *errmsg, const Seconds& model_time)
 {
 	OSErr err = 0;
-	Seconds time = model_time, startTime, endTime, lastEndTime, testTime, firstStartTime; 
+	Seconds time = model_time, startTime, endTime, lastEndTime, testTime = -1, firstStartTime; 
 	
 	long i, numFiles = GetNumFiles();
 
@@ -1405,6 +1406,7 @@ OSErr TimeGridVel_c::CheckAndScanFile(char *errmsg, const Seconds& model_time)
 		endTime = (*fInputFilesHdl)[i].endTime + fTimeShift;
 		if (startTime<=time&&time<=endTime && !(startTime==endTime))
 		{
+			DisposeAllLoadedData();	// its indices are those of another file
 			//if(fTimeHdl) {DisposeHandle((Handle)fTimeHdl); fTimeHdl=0;}
 			DisposeTimeHdl();
 			err = ScanFileForTimes((*fInputFilesHdl)[i].pathName,&fTimeHdl);	
@@ -1489,6 +1491,7 @@ OSErr TimeGridVel_c::CheckAndScanFile(char *errmsg, const Seconds& model_time)
 	}
 	if (fAllowExtrapolationInTime && time > lastEndTime)
 	{
+		DisposeAllLoadedData();	// its indices are those of another file
 		//if(fTimeHdl) {DisposeHandle((Handle)fTimeHdl); fTimeHdl=0;}
 		DisposeTimeHdl();
 		err = ScanFileForTimes((*fInputFilesHdl)[numFiles-1].pathName,&fTimeHdl);	
@@ -1500,6 +1503,7 @@ OSErr TimeGridVel_c::CheckAndScanFile(char *errmsg, const Seconds& model_time)
 	}
 	if (fAllowExtrapolationInTime && time < firstStartTime)
 	{
+		DisposeAllLoadedData();	// its indices are those of another file
 		//if(fTimeHdl) {DisposeHandle((Handle)fTimeHdl); fTimeHdl=0;}
 		DisposeTimeHdl();
 		err = ScanFileForTimes((*fInputFilesHdl)[0].pathName,&fTimeHdl);	
-- 
2.43.0


From fa358c51fa70383b87fa53d3ccdb581e838a84fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:22 +0000
Subject: [PATCH 77/93] fix: velocities of a curvilinear grid cannot be shown
 (float number of cells)

---
 py_gnome/gnome/movers/c_current_movers.py | 6 +++---
 py_gnome/gnome/movers/c_wind_movers.py    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/movers/c_current_movers.py b/py_gnome/gnome/movers/c_current_movers.py
index 91e3f2c..b411359 100644
--- a/py_gnome/gnome/movers/c_current_movers.py
+++ b/py_gnome/gnome/movers/c_current_movers.py
@@ -646,7 +646,7 @@ class c_GridCurrentMover(CurrentMoversBase):
         elif self.mover._is_regular_grid():
             num_cells = self.mover.get_num_points()
         else:
-            num_cells = num_tri / 2
+            num_cells = num_tri // 2
 
         vels = np.zeros(num_cells, dtype=basic_types.velocity_rec)
 
@@ -918,7 +918,7 @@ class IceMover(CurrentMoversBase):
         if self.mover._is_triangle_grid():
             num_cells = num_tri
         else:
-            num_cells = num_tri / 2
+            num_cells = num_tri // 2
 
         vels = np.zeros(num_cells, dtype=basic_types.velocity_rec)
         self.mover.get_scaled_velocities(model_time, vels)
@@ -1144,7 +1144,7 @@ class CurrentCycleMover(c_GridCurrentMover):
         elif self.mover._is_regular_grid():
             num_cells = self.mover.get_num_points()
         else:
-            num_cells = num_tri / 2
+            num_cells = num_tri // 2
 
         vels = np.zeros(num_cells, dtype=basic_types.velocity_rec)
 
diff --git a/py_gnome/gnome/movers/c_wind_movers.py b/py_gnome/gnome/movers/c_wind_movers.py
index 5271dbb..716ade5 100644
--- a/py_gnome/gnome/movers/c_wind_movers.py
+++ b/py_gnome/gnome/movers/c_wind_movers.py
@@ -468,7 +468,7 @@ class c_GridWindMover(WindMoversBase):
             num_cells = self.mover.get_num_points()
         else:
             num_tri = self.mover.get_num_triangles()
-            num_cells = num_tri / 2
+            num_cells = num_tri // 2
 
         # will need to update this for regular grids
         vels = np.zeros(num_cells, dtype=velocity_rec)
@@ -609,7 +609,7 @@ class IceWindMover(WindMoversBase):
         if self.mover._is_triangle_grid():
             num_cells = num_tri
         else:
-            num_cells = num_tri / 2
+            num_cells = num_tri // 2
 
         vels = np.zeros(num_cells, dtype=velocity_rec)
         self.mover.get_scaled_velocities(model_time, vels)
-- 
2.43.0


From 27df45b0760f3333eb6b4712028c77e5659460f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:18 +0000
Subject: [PATCH 78/93] fix: the RK2 method of gridded currents moves oil half
 as far north as the current says

The second of the two velocities was left out of the northward movement, and the
records around the end of the step were not read, so that a step across a record
used a weight outside 0 to 1.
---
 py_gnome/lib_gnome/GridCurrentMover_c.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/py_gnome/lib_gnome/GridCurrentMover_c.cpp b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
index fe47b76..6c9eabf 100644
--- a/py_gnome/lib_gnome/GridCurrentMover_c.cpp
+++ b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
@@ -324,18 +324,15 @@ WorldPoint3D GridCurrentMover_c::GetMove(const Seconds& model_time, Seconds time
 	}
 	else if (num_method == TRAPEZOID)
 	{
-		WorldPoint3D startPoint, p1, deltaPoint;
+		WorldPoint3D startPoint, p1, deltaPoint = {{0,0},0.};
 		startPoint.p = (*theLE).p;
 		startPoint.z = (*theLE).z;
 		p1.p = (*theLE).p;
 		p1.z = (*theLE).z;
 		VelocityRec v0, v1;
 		double dLong, dLat;
-		if(!fIsOptimizedForStep)
-		{
-			err = timeGrid->SetInterval(errmsg, model_time + timeStep);
-			if (err) return deltaPoint;
-		}
+		err = timeGrid->SetInterval(errmsg, model_time);
+		if (err) return deltaPoint;
 		v0 = timeGrid->GetScaledPatValue(model_time, startPoint);
 		v0.u *= fCurScale;
 		v0.v *= fCurScale;
@@ -343,13 +340,15 @@ WorldPoint3D GridCurrentMover_c::GetMove(const Seconds& model_time, Seconds time
 		dLat  =  (v0.v / METERSPERDEGREELAT) * timeStep;
 		p1.p.pLong = p1.p.pLong + dLong * 1000000;
 		p1.p.pLat = p1.p.pLat + dLat * 1000000;
+		err = timeGrid->SetInterval(errmsg, model_time + timeStep);
+		if (err) return deltaPoint;
 		v1 = timeGrid->GetScaledPatValue(model_time + timeStep, p1);
 		v1.u *= fCurScale;
 		v1.v *= fCurScale;
 		v1.u += v0.u;
 		v1.v += v0.v;
 		dLong = ((v1.u / METERSPERDEGREELAT) * timeStep/2) / LongToLatRatio3 (startPoint.p.pLat);
-		dLat  =  (v0.v / METERSPERDEGREELAT) * timeStep/2;
+		dLat  =  (v1.v / METERSPERDEGREELAT) * timeStep/2;
 		deltaPoint.p.pLong = dLong * 1000000;
 		deltaPoint.p.pLat  = dLat  * 1000000;
 		return deltaPoint;
-- 
2.43.0


From c8755202edb4b51d1a7ff9e88594b6cf87f6da1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:12 +0000
Subject: [PATCH 79/93] fix: refuse a tide station file with a line missing or
 without its number

ReadShioValues tested the error codes of GetKeyedValue, which are negative,
with '> 0', so an incomplete station file was accepted and its missing
constants dereferenced later.
---
 py_gnome/lib_gnome/ShioTimeValue_c.cpp | 76 +++++++++++++-------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/py_gnome/lib_gnome/ShioTimeValue_c.cpp b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
index 6d2651a..7ef96d7 100644
--- a/py_gnome/lib_gnome/ShioTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
@@ -1441,7 +1441,7 @@ OSErr ShioTimeValue_c::ReadShioValues (char *path)
 	double /*value, */stationLat, stationLon;
 	//CONTROLVAR  DatumControls;
 
-	if ((err = OSSMTimeValue_c::InitTimeFunc()) > 0)
+	if ((err = OSSMTimeValue_c::InitTimeFunc()) != 0)
 		return err;
 
 	timeValues = 0;
@@ -1524,17 +1524,17 @@ OSErr ShioTimeValue_c::ReadShioValues (char *path)
 	this->fStationName[MAXSTATIONNAMELEN-1] = 0;
 
 	// set fStationPosition correctly so base class GetStationLocation() works
-	if ((err = this->GetKeyedValue(f, "Latitude=", lineNum++, strLine, &stationLat)) > 0)  goto readError;
-	if ((err = this->GetKeyedValue(f, "Longitude=", lineNum++, strLine, &stationLon)) > 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "Latitude=", lineNum++, strLine, &stationLat)) != 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "Longitude=", lineNum++, strLine, &stationLon)) != 0)  goto readError;
 
 	this->fStationPosition.p.pLat = stationLat * 1000000;
 	this->fStationPosition.p.pLong = stationLon * 1000000;
 
-	if ((!(p = GetKeyedLine(f, "[Constituents]", lineNum++, strLine))) > 0)  goto readError;
+	if (!(p = GetKeyedLine(f, "[Constituents]", lineNum++, strLine)))  goto readError;
 
 	// code goes here in version 1.2.7 these lines won't be required for height files, but should still allow old format
 	//if(err = this->GetKeyedValue(f,"DatumControls.datum=",lineNum++,strLine,&this->fConstituent.DatumControls.datum))  goto readError;
-	if ((err = this->GetKeyedValue(f, "DatumControls.datum=", lineNum++, strLine, &this->fConstituent.DatumControls.datum)) > 0)
+	if ((err = this->GetKeyedValue(f, "DatumControls.datum=", lineNum++, strLine, &this->fConstituent.DatumControls.datum)) != 0)
 	{
 		if(this->fStationType=='h' || this->fStationType=='H')
 		{
@@ -1546,53 +1546,53 @@ OSErr ShioTimeValue_c::ReadShioValues (char *path)
 			goto readError;
 		}
 	}
-	if ((err = this->GetKeyedValue(f, "DatumControls.FDir=", lineNum++, strLine, &this->fConstituent.DatumControls.FDir)) > 0)  goto readError;
-	if ((err = this->GetKeyedValue(f, "DatumControls.EDir=", lineNum++, strLine, &this->fConstituent.DatumControls.EDir)) > 0)  goto readError;
-	if ((err = this->GetKeyedValue(f, "DatumControls.L2Flag=", lineNum++, strLine, &this->fConstituent.DatumControls.L2Flag)) > 0)  goto readError;
-	if ((err = this->GetKeyedValue(f, "DatumControls.HFlag=", lineNum++, strLine, &this->fConstituent.DatumControls.HFlag)) > 0)  goto readError;
-	if ((err = this->GetKeyedValue(f, "DatumControls.RotFlag=", lineNum++, strLine, &this->fConstituent.DatumControls.RotFlag)) > 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "DatumControls.FDir=", lineNum++, strLine, &this->fConstituent.DatumControls.FDir)) != 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "DatumControls.EDir=", lineNum++, strLine, &this->fConstituent.DatumControls.EDir)) != 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "DatumControls.L2Flag=", lineNum++, strLine, &this->fConstituent.DatumControls.L2Flag)) != 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "DatumControls.HFlag=", lineNum++, strLine, &this->fConstituent.DatumControls.HFlag)) != 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "DatumControls.RotFlag=", lineNum++, strLine, &this->fConstituent.DatumControls.RotFlag)) != 0)  goto readError;
 
 skipDatumControls:
-	if ((err = this->GetKeyedValue(f, "H=", lineNum++, strLine, &this->fConstituent.H)) > 0)  goto readError;
-	if ((err = this->GetKeyedValue(f, "kPrime=", lineNum++, strLine, &this->fConstituent.kPrime)) > 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "H=", lineNum++, strLine, &this->fConstituent.H)) != 0)  goto readError;
+	if ((err = this->GetKeyedValue(f, "kPrime=", lineNum++, strLine, &this->fConstituent.kPrime)) != 0)  goto readError;
 
 	if (!(p = GetKeyedLine(f,"[Offset]",lineNum++,strLine)))  goto readError;
 
 	switch(this->fStationType)
 	{
 		case 'c': case 'C':
-			if ((err = this->GetKeyedValue(f, "MinBefFloodTime=", lineNum++, strLine, &this->fCurrentOffset.MinBefFloodTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "FloodTime=", lineNum++, strLine, &this->fCurrentOffset.FloodTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MinBefEbbTime=", lineNum++, strLine, &this->fCurrentOffset.MinBefEbbTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "EbbTime=", lineNum++, strLine, &this->fCurrentOffset.EbbTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "FloodSpdRatio=", lineNum++, strLine, &this->fCurrentOffset.FloodSpdRatio)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "EbbSpdRatio=", lineNum++, strLine, &this->fCurrentOffset.EbbSpdRatio)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MinBFloodSpd=", lineNum++, strLine, &this->fCurrentOffset.MinBFloodSpd)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MinBFloodDir=", lineNum++, strLine, &this->fCurrentOffset.MinBFloodDir)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MaxFloodSpd=", lineNum++, strLine, &this->fCurrentOffset.MaxFloodSpd)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MaxFloodDir=", lineNum++, strLine, &this->fCurrentOffset.MaxFloodDir)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MinBEbbSpd=", lineNum++, strLine, &this->fCurrentOffset.MinBEbbSpd)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MinBEbbDir=", lineNum++, strLine, &this->fCurrentOffset.MinBEbbDir)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MaxEbbSpd=", lineNum++, strLine, &this->fCurrentOffset.MaxEbbSpd)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "MaxEbbDir=", lineNum++, strLine, &this->fCurrentOffset.MaxEbbDir)) > 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MinBefFloodTime=", lineNum++, strLine, &this->fCurrentOffset.MinBefFloodTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "FloodTime=", lineNum++, strLine, &this->fCurrentOffset.FloodTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MinBefEbbTime=", lineNum++, strLine, &this->fCurrentOffset.MinBefEbbTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "EbbTime=", lineNum++, strLine, &this->fCurrentOffset.EbbTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "FloodSpdRatio=", lineNum++, strLine, &this->fCurrentOffset.FloodSpdRatio)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "EbbSpdRatio=", lineNum++, strLine, &this->fCurrentOffset.EbbSpdRatio)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MinBFloodSpd=", lineNum++, strLine, &this->fCurrentOffset.MinBFloodSpd)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MinBFloodDir=", lineNum++, strLine, &this->fCurrentOffset.MinBFloodDir)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MaxFloodSpd=", lineNum++, strLine, &this->fCurrentOffset.MaxFloodSpd)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MaxFloodDir=", lineNum++, strLine, &this->fCurrentOffset.MaxFloodDir)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MinBEbbSpd=", lineNum++, strLine, &this->fCurrentOffset.MinBEbbSpd)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MinBEbbDir=", lineNum++, strLine, &this->fCurrentOffset.MinBEbbDir)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MaxEbbSpd=", lineNum++, strLine, &this->fCurrentOffset.MaxEbbSpd)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "MaxEbbDir=", lineNum++, strLine, &this->fCurrentOffset.MaxEbbDir)) != 0)  goto readError;
 			SetFileType(SHIOCURRENTSFILE);
 			break;
 		case 'h': case 'H':
-			if ((err = this->GetKeyedValue(f, "HighTime=", lineNum++, strLine, &this->fHeightOffset.HighTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "LowTime=", lineNum++, strLine, &this->fHeightOffset.LowTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "HighHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Mult)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "HighHeight_Add=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Add)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "LowHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Mult)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "LowHeight_Add=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Add)) > 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "HighTime=", lineNum++, strLine, &this->fHeightOffset.HighTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "LowTime=", lineNum++, strLine, &this->fHeightOffset.LowTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "HighHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Mult)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "HighHeight_Add=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Add)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "LowHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Mult)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "LowHeight_Add=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Add)) != 0)  goto readError;
 			SetFileType(SHIOHEIGHTSFILE);
 			break;
 		case 'p': case 'P':
-			if ((err = this->GetKeyedValue(f, "HighTime=", lineNum++, strLine, &this->fHeightOffset.HighTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "LowTime=", lineNum++, strLine, &this->fHeightOffset.LowTime)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "HighHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Mult)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "HighHeight_Add=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Add)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "LowHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Mult)) > 0)  goto readError;
-			if ((err = this->GetKeyedValue(f, "LowHeight_Add=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Add)) > 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "HighTime=", lineNum++, strLine, &this->fHeightOffset.HighTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "LowTime=", lineNum++, strLine, &this->fHeightOffset.LowTime)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "HighHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Mult)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "HighHeight_Add=", lineNum++, strLine, &this->fHeightOffset.HighHeight_Add)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "LowHeight_Mult=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Mult)) != 0)  goto readError;
+			if ((err = this->GetKeyedValue(f, "LowHeight_Add=", lineNum++, strLine, &this->fHeightOffset.LowHeight_Add)) != 0)  goto readError;
 			SetFileType(PROGRESSIVETIDEFILE);
 			break;
 	}
-- 
2.43.0


From 4e10569b37c3932f0c90d6c98ff1d502639777b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:12 +0000
Subject: [PATCH 80/93] fix: read the constants of a tide station whose line
 ends without a blank

GetKeyedValue stepped over the terminating NUL and read on in whatever the
line buffer held before.
---
 py_gnome/lib_gnome/ShioTimeValue_c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/ShioTimeValue_c.cpp b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
index 7ef96d7..7b71096 100644
--- a/py_gnome/lib_gnome/ShioTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
@@ -109,7 +109,7 @@ OSErr ShioTimeValue_c::GetKeyedValue(CHARH f, const char *key, long lineNum, cha
 		for(i = 0;i < kMaxStrChar && *p != ' ' && *p != '\t' && *p ;str[i++] = (*p++)){} // copy to next white space or end of string
 		if(i == kMaxStrChar) {err = -3; goto done;}
 		str[i] = 0;
-		p++;
+		if(*p) p++; // stay at the end of the line
 		scanErr =  StringToDouble(str,&value);
 		if(scanErr) return scanErr;
 		(*h)[numVals++] = value;
-- 
2.43.0


From 8891aeb86957b0c069cdc5305b964fcd72891048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:12 +0000
Subject: [PATCH 81/93] fix: first value of a progressive tide after its wave
 has been computed

It was whatever the caller's record held, times the scale factor.
---
 py_gnome/lib_gnome/ShioTimeValue_c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/ShioTimeValue_c.cpp b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
index 7b71096..9d8630a 100644
--- a/py_gnome/lib_gnome/ShioTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
@@ -1145,7 +1145,7 @@ OSErr ShioTimeValue_c::GetTimeValue(const Seconds& current_time, VelocityRec *va
 				if (err) goto done_heights2;
 				fScaleFactor = scaleFactor;
 			}
-			(*value).u = (*value).u * fScaleFactor;
+			err = GetProgressiveWaveValue(current_time,value);
 		}
 
 
-- 
2.43.0


From 19903348ad17e361818a47d561e539826bc795d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:12 +0000
Subject: [PATCH 82/93] fix: rate of change of a diurnal height station in the
 morning

The computed range of high and low waters began six hours before the time
asked for, rounded down to midnight; a station with one high and low water a
day may have none in it before that time, and the value was left unset.
---
 py_gnome/lib_gnome/ShioTimeValue_c.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/ShioTimeValue_c.cpp b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
index 9d8630a..92ff126 100644
--- a/py_gnome/lib_gnome/ShioTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
@@ -450,7 +450,8 @@ OSErr ShioTimeValue_c::GetTimeValue(const Seconds& current_time, VelocityRec *va
 	//SecondsToDate(modelStartTime,&beginDate);
 
 //	SecondsToDate(modelStartTime-6*3600,&beginDate);	// for now to handle the new tidal current mover 1/27/04 // minus AH 07/10/2012
-	SecondsToDate(current_time-6*3600,&beginDate);	// AH 07/10/2012
+	// heights need the high or low water before the time asked for, which can be half a day away
+	SecondsToDate(current_time-(this->fStationType == 'H' ? 24 : 6)*3600,&beginDate);	// AH 07/10/2012
 
 	beginDate.hour = 0; // Shio expects this to be the start of the day
 	beginDate.minute = 0;
-- 
2.43.0


From a6383c2dd33b0ea507e2c7a5c1d8d16a7b26f6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:12 +0000
Subject: [PATCH 83/93] fix: crash of a tide station with more high and low
 waters than fit

GetReferenceCurve reported no error when the peaks did not fit, and
DoOffSetCorrection deleted pointers it had not set yet.
---
 py_gnome/lib_gnome/ShioHeight.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/py_gnome/lib_gnome/ShioHeight.cpp b/py_gnome/lib_gnome/ShioHeight.cpp
index 5db6c06..0f1951d 100644
--- a/py_gnome/lib_gnome/ShioHeight.cpp
+++ b/py_gnome/lib_gnome/ShioHeight.cpp
@@ -553,6 +553,7 @@ short DoOffSetCorrection (COMPHEIGHTS *answers,  // Hdl to reference station hei
 	short		*HLFlagHdl = 0;
 	double		*HArrayPtr = 0;
 	EXTFLAG		*TArrayPtr = 0;
+	double		*pSlopesMult = 0,*pSlopesAdd = 0;
 
 	errorFlag=0;
 
@@ -752,8 +753,6 @@ short DoOffSetCorrection (COMPHEIGHTS *answers,  // Hdl to reference station hei
 
 	}
 
-    double *pSlopesMult, *pSlopesAdd;
-
 	pSlopesMult = new double[NoOfHighsLows];    // allocate memeory for slope array
 	pSlopesAdd = new double[NoOfHighsLows];    // allocate memeory for slope array
 
@@ -1383,7 +1382,7 @@ short GetReferenceCurve(CONSTITUENT *constituent,	// Amplitude-phase array struc
 				// OK now compute height at MaxMinTime and check
 				// to see if it is a high or a low
 				MaxMinHeight = RStatHeight(MaxMinTime,AMPAPtr,epochPtr,numOfConstituents,referenceHeight);
-				if(HighLowCount >= maxPeaks) { err = 41; goto Error;}
+				if(HighLowCount >= maxPeaks) { errorFlag = 41; goto Error;}
 				if(MaxMinHeight<oldHeight){
 					// low tide
 					tHdl[HighLowCount]  = 0;
@@ -1417,7 +1416,7 @@ short GetReferenceCurve(CONSTITUENT *constituent,	// Amplitude-phase array struc
 				errorFlag = FindHighLow(t0,theTime,0,AMPAPtr,epochPtr,numOfConstituents,
 							&theLow,&theLowTime,referenceHeight);
 				if(errorFlag!=0){ goto Error; }
-				if(HighLowCount >= maxPeaks) { err = 41; goto Error;}
+				if(HighLowCount >= maxPeaks) { errorFlag = 41; goto Error;}
 				HLHHdl[HighLowCount] = theLow;
 				HLTHdl[HighLowCount].val = theLowTime;
 				tHdl[HighLowCount] = 0;
@@ -1428,7 +1427,7 @@ short GetReferenceCurve(CONSTITUENT *constituent,	// Amplitude-phase array struc
 				errorFlag = FindHighLow(t0,theTime,1,AMPAPtr,epochPtr,numOfConstituents,
 							&theHigh,&theHighTime,referenceHeight);
 				if(errorFlag!=0){ goto Error; }
-				if(HighLowCount >= maxPeaks) { err = 41; goto Error;}
+				if(HighLowCount >= maxPeaks) { errorFlag = 41; goto Error;}
 				HLHHdl[HighLowCount] = theHigh;
 				HLTHdl[HighLowCount].val = theHighTime;
 				tHdl[HighLowCount] = 1;
-- 
2.43.0


From a7855d5dda8326991d286c1aba1bd0d30aa9ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:12 +0000
Subject: [PATCH 84/93] fix: netCDF file left open by IsNetCDFFile

Every exit but the last left the file open: each gridded current or wind
mover made used up a file descriptor for good.
---
 py_gnome/lib_gnome/TimeGridVel_c.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py_gnome/lib_gnome/TimeGridVel_c.cpp b/py_gnome/lib_gnome/TimeGridVel_c.cpp
index 1f74718..a7c3d1d 100644
--- a/py_gnome/lib_gnome/TimeGridVel_c.cpp
+++ b/py_gnome/lib_gnome/TimeGridVel_c.cpp
@@ -113,7 +113,7 @@ Boolean IsNetCDFFile (char *path, short *gridType)
 
 	long line;
 	long lenToRead, fileLength;
-	int status, ncid;
+	int status, ncid = -1;
 	size_t t_len, t_len2;
 	char *modelTypeStr = 0, *gridTypeStr = 0, *sourceStr = 0;
 
@@ -226,9 +226,8 @@ Boolean IsNetCDFFile (char *path, short *gridType)
 		//*gridType = CURVILINEAR;
 		*gridType = REGULAR; // change default to REGULAR - 1/29/09
 	
-	nc_close(ncid);
-
 done:
+	if (ncid != -1) nc_close(ncid);
 	if (modelTypeStr) delete [] modelTypeStr;	
 	if (gridTypeStr) delete [] gridTypeStr;	
 	if (sourceStr) delete [] sourceStr;	
-- 
2.43.0


From 9cec6d695e70bf747846ab94e10f8414112ef9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:56 +0000
Subject: [PATCH 85/93] fix: tides stayed on daylight saving time until 7
 November

The test for being past the first Sunday of November could never be true.
---
 py_gnome/lib_gnome/ShioTimeValue_c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/ShioTimeValue_c.cpp b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
index 92ff126..bda07b4 100644
--- a/py_gnome/lib_gnome/ShioTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/ShioTimeValue_c.cpp
@@ -332,7 +332,7 @@ Boolean ShioTimeValue_c::DaylightSavingTimeInEffect(DateTimeRec *dateStdTime)
 				else
 				{	// not Sunday
 					short nextSundayDay = dateStdTime->day - dateStdTime->dayOfWeek + 8;
-					if(nextSundayDay > 14) return false; // next Sunday is next month, so we are after the magic Sunday
+					if(nextSundayDay > 7) return false; // next Sunday is not the first, so we are after the magic Sunday
 					else return true;// next Sunday is this month, so we are before the magic Sunday
 				}
 		}
-- 
2.43.0


From 58c5f495d8807049054cc27ea1e9ff7044b0d56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:23 +0000
Subject: [PATCH 86/93] fix: heavy droplets sink instead of getting a NaN rise
 velocity

Droplets of 0.2 mm and more heavier than the water took the square root
of a negative buoyancy.
---
 py_gnome/lib_gnome/RiseVelocity_c.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/py_gnome/lib_gnome/RiseVelocity_c.cpp b/py_gnome/lib_gnome/RiseVelocity_c.cpp
index 471c532..4f7f1fd 100644
--- a/py_gnome/lib_gnome/RiseVelocity_c.cpp
+++ b/py_gnome/lib_gnome/RiseVelocity_c.cpp
@@ -73,13 +73,12 @@ double GetRiseVelocity(double le_density, double le_droplet_size, double water_v
 {
 	double g = 9.8, riseVelocity=0.;
 	
-	double dfac = g*(water_density-le_density) / water_density;	// buoyancy term
+	double dfac = g*fabs(water_density-le_density) / water_density;	// buoyancy term
 	double d1 = .0002, d2 = .01;	// upper limit for Stoke's law cut; lower limit for Form drag
 	//water_viscosity = 1.3e-6;	// water viscosity in mks units (for temp = 10 deg C)
 	double scaled_dropletSize = (le_droplet_size - d1) / (d2 - d1);	// droplet diameter scaled to (d2-d1) interval
 	double a1, a2, a3, a4, c0, c1, c2, c3;
-	
-	// check inputs are ok? (water_density>le_density...)
+
 	if (scaled_dropletSize < 0.)	// special case where d is in Stoke's drift range
 	{
 		double ds = scaled_dropletSize * (d2 - d1) + d1;
@@ -104,6 +103,9 @@ double GetRiseVelocity(double le_density, double le_droplet_size, double water_v
 		riseVelocity = ((c3*scaled_dropletSize + c2)*scaled_dropletSize + c1)*scaled_dropletSize + c0;
 	}
 
+	// a droplet heavier than the water sinks
+	if (le_density > water_density) riseVelocity = -riseVelocity;
+
 	return riseVelocity;
 }
 
-- 
2.43.0


From 211156281f0dd034fdf16f6e4e9a51976c638ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:23 +0000
Subject: [PATCH 87/93] fix: a distribution given to a SubsurfaceRelease later
 is used

initialize_elements_post_substance kept drawing from the distribution of
the constructor.
---
 py_gnome/gnome/spills/release.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 315c3ef..c745741 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -1494,6 +1494,7 @@ class SubsurfaceRelease(PointLineRelease):
         sl = slice(-to_rel, None, 1)
 
         Release.initialize_elements_post_substance(self, to_rel, sc, start_time, end_time, environment)
+        self._init_rise_vel.distribution = self.distribution
         self._init_rise_vel.initialize(to_rel, sc, sc.substance)
 
 class VerticalPlumeRelease(Release):
-- 
2.43.0


From 84503737df9f4338db3e82f432ee3bf026becf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:23 +0000
Subject: [PATCH 88/93] fix: Model.get_spill_data compares values, not their
 integer part

---
 py_gnome/gnome/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 99d5751..0b76f92 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1976,7 +1976,7 @@ class Model(GnomeId):
 
         def test(elem_value, op, test_val):
             if op in {'<', '<=', '>', '>=', '=='}:
-                return eval(str(int(elem_value)) + op + test_val)
+                return eval(repr(float(elem_value)) + op + test_val)
 
         def num(s):
             try:
-- 
2.43.0


From 88337ea5b30a1a2c2e0feed84c133ef7cd19aae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:23 +0000
Subject: [PATCH 89/93] fix: element data with NaN entries is equal to its copy

ArrayTypes with a NaN initial value, and arrays holding NaN, compared
unequal to themselves.
---
 py_gnome/gnome/array_types.py     | 7 ++++++-
 py_gnome/gnome/spill_container.py | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/array_types.py b/py_gnome/gnome/array_types.py
index 9baa3aa..7dba19d 100644
--- a/py_gnome/gnome/array_types.py
+++ b/py_gnome/gnome/array_types.py
@@ -143,7 +143,12 @@ class ArrayType(AddLogger):
             if key not in other.__dict__:
                 return False
             elif key == 'initial_value':
-                if np.any(val != other.__dict__[key]):
+                val, other_val = np.asarray(val), np.asarray(other.__dict__[key])
+                if val.shape != other_val.shape:
+                    return False
+                # NaN as initial value equals NaN
+                if np.any((val != other_val) &
+                          ~((val != val) & (other_val != other_val))):
                     return False
             elif val != other.__dict__[key]:
                 return False
diff --git a/py_gnome/gnome/spill_container.py b/py_gnome/gnome/spill_container.py
index 9f3ad8d..a4856c4 100644
--- a/py_gnome/gnome/spill_container.py
+++ b/py_gnome/gnome/spill_container.py
@@ -301,7 +301,8 @@ class SpillContainerData(object):
                 if isinstance(val, np.ndarray):
                     try:
                         if not np.allclose(val, other_val, 0,
-                                           self._array_allclose_atol):
+                                           self._array_allclose_atol,
+                                           equal_nan=True):
                             return False
                     except TypeError:
                         # not implemented for this dtype,
-- 
2.43.0


From aac3a598e3a55f83a9e774d0b3c915548a3ddd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:23 +0000
Subject: [PATCH 90/93] fix: an old save file with adjacent WeatheringData
 objects loads

v3tov4 removed items from the list it was iterating over.
---
 py_gnome/gnome/utilities/save_updater.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/utilities/save_updater.py b/py_gnome/gnome/utilities/save_updater.py
index 77f0b62..cb28940 100644
--- a/py_gnome/gnome/utilities/save_updater.py
+++ b/py_gnome/gnome/utilities/save_updater.py
@@ -358,10 +358,8 @@ def v3tov4(messages, errors):
             with open(fname, 'r', encoding='utf-8') as fn:
                 json_ = json.load(fn)
                 if 'weatherers' in json_:
-                    # this is assuming only one
-                    for item in json_['weatherers']:
-                        if item in files_to_remove:
-                            json_['weatherers'].remove(item)
+                    json_['weatherers'] = [item for item in json_['weatherers']
+                                           if item not in files_to_remove]
                 json.dump(json_, open(fname, 'w', encoding='utf-8'), indent=4)
 
     # remove targeted files
-- 
2.43.0


From 6d476145453a464e0825b7f34318b1bf4cf33e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:35 +0000
Subject: [PATCH 91/93] fix: save the time offset and numerical method of
 gridded movers and the uncertainty settings of ComponentMover

---
 py_gnome/gnome/movers/c_current_movers.py | 18 +++++++++++++++---
 py_gnome/gnome/movers/c_wind_movers.py    |  3 +++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/movers/c_current_movers.py b/py_gnome/gnome/movers/c_current_movers.py
index b411359..a42a003 100644
--- a/py_gnome/gnome/movers/c_current_movers.py
+++ b/py_gnome/gnome/movers/c_current_movers.py
@@ -444,9 +444,12 @@ class c_GridCurrentMoverSchema(CurrentMoversBaseSchema):
     extrapolate = SchemaNode(
         Bool(), missing=drop, save=True, update=True
     )
-    # time_offset = SchemaNode(
-    #     Float(), missing=drop, save=True, update=True
-    # )
+    time_offset = SchemaNode(
+        Float(), missing=drop, save=True, update=True
+    )
+    num_method = SchemaNode(
+        String(), missing=drop, save=True, update=True
+    )
     is_data_on_cells = SchemaNode(
         Bool(), missing=drop, read_only=True
     )
@@ -721,6 +724,9 @@ class IceMoverSchema(CurrentMoversBaseSchema):
     extrapolate = SchemaNode(
         Bool(), missing=drop, save=True, update=True
     )
+    time_offset = SchemaNode(
+        Float(), missing=drop, save=True, update=True
+    )
 
 
 class IceMover(CurrentMoversBase):
@@ -1155,6 +1161,12 @@ class CurrentCycleMover(c_GridCurrentMover):
 
 class ComponentMoverSchema(ProcessSchema):
     '''static schema for ComponentMover'''
+    uncertain_duration = SchemaNode(
+        Float(), missing=drop, save=True, update=True
+    )
+    uncertain_time_delay = SchemaNode(
+        Float(), missing=drop, save=True, update=True
+    )
     filename1 = FilenameSchema(
         save=True, update=False, isdatafile=True, test_equal=False
     )
diff --git a/py_gnome/gnome/movers/c_wind_movers.py b/py_gnome/gnome/movers/c_wind_movers.py
index 716ade5..ca1566a 100644
--- a/py_gnome/gnome/movers/c_wind_movers.py
+++ b/py_gnome/gnome/movers/c_wind_movers.py
@@ -335,6 +335,9 @@ class c_GridWindMoverSchema(WindMoversBaseSchema):
     extrapolate = SchemaNode(
         Bool(), missing=drop, save=True, update=True
     )
+    time_offset = SchemaNode(
+        Float(), missing=drop, save=True, update=True
+    )
 
 
 class c_GridWindMover(WindMoversBase):
-- 
2.43.0


From 77a3b2f8160ab6f13c6d54ec7cbc6e938d74eacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:53 +0000
Subject: [PATCH 92/93] fix: releases that retain the initial positions stored
 an undefined name

---
 py_gnome/gnome/spills/release.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index c745741..2ffcd91 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -488,7 +488,7 @@ class Release(GnomeId):
         sc['init_mass'][sl] = self._mass_per_le
 
         if self.retain_initial_positions:
-            sc['init_positions'][sl] = positions
+            sc['init_positions'][sl] = sc['positions'][sl]
 
     def initialize_elements_post_substance(self, to_rel, sc, start_time, end_time, environment):
 
@@ -1140,7 +1140,7 @@ class GridRelease(Release):
         sc['init_mass'][sl] = self._mass_per_le
 
         if self.retain_initial_positions:
-            sc['init_positions'][sl] = pos
+            sc['init_positions'][sl] = positions
 
 
 
-- 
2.43.0


From f3789b870432837161535b47a4106414c18c595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:53 +0000
Subject: [PATCH 93/93] fix: clearing the weights or thicknesses of a polygon
 release that has none raised KeyError

---
 py_gnome/gnome/spills/release.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 2ffcd91..0d569ed 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -877,7 +877,7 @@ class PolygonRelease(Release):
     def thicknesses(self, vals):
         if vals is None:
             for feat in self.features[:]:
-                del feat.properties['thickness']
+                feat.properties.pop('thickness', None)
             return
         if self.weights is not None:
             raise ValueError('Cannot assign thicknesses to {} due to previously assigned weights'.format(self.name))
@@ -893,7 +893,7 @@ class PolygonRelease(Release):
     def weights(self, vals):
         if vals is None:
             for feat in self.features[:]:
-                del feat.properties['weight']
+                feat.properties.pop('weight', None)
             return
         if self.thicknesses is not None:
             raise ValueError('Cannot assign weights to {} due to previously assigned thicknesses'.format(self.name))
-- 
2.43.0

