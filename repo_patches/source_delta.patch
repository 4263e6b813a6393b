From 971b3441c52aa0d797abc06de1b75b6fd1415b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 01/73] fix: use matching step sizes in the cross product of
 surface_area for anisotropic pixels

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index a5f6d05..3f97cf7 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1000,8 +1000,8 @@ class Surface(BaseTopography):
         dz_x = np.diff(self.data, axis=1)
 
         # Calculate cross products
-        cross_x = self.step_y * dz_y[:, :-1]
-        cross_y = self.step_x * dz_x[:-1, :]
+        cross_x = self.step_y * dz_x[:-1, :]
+        cross_y = self.step_x * dz_y[:, :-1]
         cross_z = self.step_x * self.step_y
 
         # Calculate areas using vectorized operations
-- 
2.43.0


From 4df53c39241e28f38e8ffe331ec03749c55f8cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 02/73] fix: crop, zoom and slicing of a Surface return
 independent, editable data instead of views of the parent

---
 surfalize/surface.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 3f97cf7..9d20f62 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -268,7 +268,7 @@ class Surface(BaseTopography):
                 step_y = item[0].step * self.step_y
             if isinstance(item[1], slice) and item[1].step is not None:
                 step_x = item[1].step * self.step_x
-        return Surface(self._data.__getitem__(item), step_x, step_y)
+        return Surface(self._data.__getitem__(item).copy(), step_x, step_y)
 
     @classmethod
     def load(cls, path_or_buffer, format=None, encoding='auto', read_image_layers=False):
@@ -679,7 +679,7 @@ class Surface(BaseTopography):
         """
         y, x = self.size
         xn, yn = int(x / factor), int(y / factor)
-        data = self.data[int((y - yn) / 2):yn + int((y - yn) / 2) + 1, int((x - xn) / 2):xn + int((x - xn) / 2) + 1]
+        data = self.data[int((y - yn) / 2):yn + int((y - yn) / 2) + 1, int((x - xn) / 2):xn + int((x - xn) / 2) + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
@@ -713,7 +713,7 @@ class Surface(BaseTopography):
         if x0 < 0 or y0 < 0 or x1 > self.size.x - 1 or y1 > self.size.y - 1:
             raise ValueError('Box is out of bounds!')
 
-        data = self.data[y0:y1 + 1, x0:x1 + 1]
+        data = self.data[y0:y1 + 1, x0:x1 + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
-- 
2.43.0


From f7a1d261a12ca13d9b8238f87c5425668190bce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 03/73] fix: crop and zoom of a Profile return independent,
 editable data instead of views of the parent

---
 surfalize/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index 79f2d11..13b405c 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -238,7 +238,7 @@ class Profile(BaseTopography):
         if x0 < 0 or x1 > self.size - 1 or x0 >= x1:
             raise ValueError('Interval is out of bounds!')
 
-        data = self.data[x0:x1 + 1]
+        data = self.data[x0:x1 + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
@@ -262,7 +262,7 @@ class Profile(BaseTopography):
         """
         n = self.size
         nn = int(n / factor)
-        data = self.data[int((n - nn) / 2):nn + int((n - nn) / 2) + 1]
+        data = self.data[int((n - nn) / 2):nn + int((n - nn) / 2) + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
-- 
2.43.0


From 5d9090eede8709e4aa3098aadf4211a6ddd10997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 04/73] fix: invert ignores non-measured points instead of
 turning the whole topography into NaN

---
 surfalize/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/base.py b/surfalize/base.py
index c9ff347..d15d56b 100644
--- a/surfalize/base.py
+++ b/surfalize/base.py
@@ -253,7 +253,7 @@ class BaseTopography(CachedInstance):
         -------
         Surface | Profile
         """
-        data = self.data.min() + self.data.max() - self.data
+        data = np.nanmin(self.data) + np.nanmax(self.data) - self.data
         if inplace:
             self._set_data(data=data)
             return self
-- 
2.43.0


From 090fde9b1ca93fd9cdca1038be0c798aee312d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 05/73] fix: surfaces that compare equal within tolerance hash
 equal

---
 surfalize/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 9d20f62..74f9832 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -255,7 +255,7 @@ class Surface(BaseTopography):
         return True
 
     def __hash__(self):
-        return hash((self.step_x, self.step_y, self.size.x, self.size.y, self.data.mean(), self.data.std()))
+        return hash((self.step_x, self.step_y, self.size.x, self.size.y))
 
     def __getitem__(self, item):
         step_y = self.step_y
-- 
2.43.0


From ac6543aa9c6af8f66d887edfc4e58d82cd7b0cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 06/73] fix: stepheight_level does not hand out the same cached
 surface object twice

---
 surfalize/surface.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 74f9832..109901e 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -768,7 +768,6 @@ class Surface(BaseTopography):
         return mask
 
     @batch_method('operation')
-    @cache
     def stepheight_level(self, inplace=False):
         """
         Levels the surface only based on the datapoints from the upper level surface in a rectangular ablation cavity.
-- 
2.43.0


From d97bd1f0a26d7691202de9dfae5587d1e6e83d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 07/73] fix: horizontal and vertical profiles are taken at the
 closest data points, including the edge and the averaging positions

---
 surfalize/surface.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 109901e..2b9be8f 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -379,23 +379,20 @@ class Surface(BaseTopography):
         -------
         profile : surfalize.Profile
         """
-        if y > self.height_um:
+        if y < 0 or y > self.height_um:
             raise ValueError("y must not exceed height of surface.")
         
         if average_step is None:
             average_step_px = 1
         else:
-            average_step_px = int(average_step / self.step_y)
+            average_step_px = max(1, round(average_step / self.step_y))
 
         # vertical index of profile
-        idx = int(y / self.height_um * self.size.y)
-        # first index from which a profile is taken for averaging
-        idx_min = idx - int(average / 2) * average_step_px
-        idx_min = 0 if idx_min < 0 else idx_min
-        # last index from which a profile is taken for averaging
-        idx_max = idx + int(average / 2) * average_step_px
-        idx_max = self.size.y if idx_max > self.size.y else idx_max
-        data = self.data[idx_min:idx_max + 1:average_step_px].mean(axis=0)
+        idx = round(y / self.step_y)
+        # indices of the profiles used for averaging, those beyond the edges are left out
+        indices = idx + (np.arange(average) - average // 2) * average_step_px
+        indices = indices[(indices >= 0) & (indices < self.size.y)]
+        data = self.data[indices].mean(axis=0)
         return Profile(data, self.step_x, self.width_um)
     
     def get_vertical_profile(self, x, average=1, average_step=None):
@@ -419,23 +416,20 @@ class Surface(BaseTopography):
          -------
          profile : surfalize.Profile
          """
-        if x > self.width_um:
+        if x < 0 or x > self.width_um:
             raise ValueError("x must not exceed height of surface.")
         
         if average_step is None:
             average_step_px = 1
         else:
-            average_step_px = int(average_step / self.step_x)
+            average_step_px = max(1, round(average_step / self.step_x))
 
         # vertical index of profile
-        idx = int(x / self.width_um * self.size.x)
-        # first index from which a profile is taken for averaging
-        idx_min = idx - int(average / 2) * average_step_px
-        idx_min = 0 if idx_min < 0 else idx_min
-        # last index from which a profile is taken for averaging
-        idx_max = idx + int(average / 2) * average_step_px
-        idx_max = self.size.x if idx_max > self.size.x else idx_max
-        data = self.data[:, idx_min:idx_max + 1:average_step_px].mean(axis=1)
+        idx = round(x / self.step_x)
+        # indices of the profiles used for averaging, those beyond the edges are left out
+        indices = idx + (np.arange(average) - average // 2) * average_step_px
+        indices = indices[(indices >= 0) & (indices < self.size.x)]
+        data = self.data[:, indices].mean(axis=1)
         return Profile(data, self.step_y, self.height_um)
 
     #TODO: implement averaging
-- 
2.43.0


From 1118d38e2b97f84ef0e6c33e54f86fca7e6fb1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 08/73] fix: oblique profiles run from the start to the end
 point, also vertically and away from the origin

---
 surfalize/surface.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 2b9be8f..b1a5a08 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -457,28 +457,29 @@ class Surface(BaseTopography):
          -------
          profile : surfalize.Profile
          """
-        x0px = int(x0 / self.width_um * self.size.x)
-        y0px = int(y0 / self.height_um * self.size.y)
-        x1px = int(x1 / self.width_um * self.size.x)
-        y1px = int(y1 / self.height_um * self.size.y)
+        x0px = round(x0 / self.step_x)
+        y0px = round(y0 / self.step_y)
+        x1px = round(x1 / self.step_x)
+        y1px = round(y1 / self.step_y)
 
-        if (not(0 <= x0px <= self.size.x) or not(0 <= y0px <= self.size.y) or
-            not(0 <= x1px <= self.size.x) or not(0 <= y1px <= self.size.y)):
+        if (not(0 <= x0px < self.size.x) or not(0 <= y0px < self.size.y) or
+            not(0 <= x1px < self.size.x) or not(0 <= y1px < self.size.y)):
             raise ValueError("Start- and endpoint coordinates must lie within the surface.")
 
         dx = x1px - x0px
         dy = y1px - y0px
+        if dx == 0 and dy == 0:
+            raise ValueError("Start- and endpoint must not coincide.")
 
-        size = int(np.hypot(dx, dy))
+        size = int(np.hypot(dx, dy)) + 1
 
-        m = dy/dx
         xp = np.linspace(x0px, x1px, size)
-        yp = m * xp
+        yp = np.linspace(y0px, y1px, size)
 
         data = ndimage.map_coordinates(self.data, [yp, xp])
 
         length_um = np.hypot(dy * self.step_y, dx * self.step_x)
-        step = length_um / size
+        step = length_um / (size - 1)
         return Profile(data, step, length_um)
 
     # Operations #######################################################################################################
-- 
2.43.0


From be173e23285c2fbb469819be9e1034b6f526c114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 09/73] fix: fill_nonmeasured with inplace=False returns a new
 object also if no points are missing

---
 surfalize/profile.py | 2 +-
 surfalize/surface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index 13b405c..fc62f5a 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -145,7 +145,7 @@ class Profile(BaseTopography):
         profile : surfalize.Profile
         """
         if not self.has_missing_points:
-            return self
+            return self if inplace else self._with_data(self.data.copy())
         indices = np.arange(self.size)
         mask = ~np.isnan(self.data)
         data_interpolated = griddata(indices[mask], self.data[mask], indices, method=method)
diff --git a/surfalize/surface.py b/surfalize/surface.py
index b1a5a08..9092c8c 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -502,7 +502,7 @@ class Surface(BaseTopography):
             Surface object.
         """
         if not self.has_missing_points:
-            return self
+            return self if inplace else self._with_data(self.data.copy())
         values = self.data.ravel()
         mask = ~np.isnan(values)
 
-- 
2.43.0


From 164e88a81f0fe02a3e3e69921a441f44636642aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 10/73] fix: reduced peak height and dale depth are 0 instead
 of NaN if nothing protrudes from the core

---
 surfalize/abbottfirestone.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/surfalize/abbottfirestone.py b/surfalize/abbottfirestone.py
index 692bd0e..8233b1a 100644
--- a/surfalize/abbottfirestone.py
+++ b/surfalize/abbottfirestone.py
@@ -196,6 +196,9 @@ class AbbottFirestoneCurve(CachedInstance):
         # This way, we are losing or gaining a bit of area. In the future we might use some
         # additional interpolation. For now this is sufficient.
 
+        # The upper limit of the core lies at or above the highest point, there are no protruding hills to be reduced
+        if self.mr1() == 0:
+            return 0.0
         # Area enclosed above yupper between y-axis (at x=0) and abbott-firestone curve
         idx = argclosest(self._yupper, self._height)
         A1 = np.abs(trapezoid(self._material_ratio[:idx], x=self._height[:idx]))
@@ -211,6 +214,9 @@ class AbbottFirestoneCurve(CachedInstance):
         -------
         float
         """
+        # The lower limit of the core lies at or below the lowest point, there are no protruding dales to be reduced
+        if self.mr2() == 100:
+            return 0.0
         # Area enclosed below ylower between y-axis (at x=100) and abbott-firestone curve
         idx = argclosest(self._ylower, self._height)
         A2 = np.abs(trapezoid(100 - self._material_ratio[idx:], x=self._height[idx:]))
-- 
2.43.0


From 2e1e93175ebd043057abe8ebcb34a22b235193bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 11/73] fix: otsu_threshold separates the classes at the bin
 edge instead of inside the last bin of the lower class

---
 surfalize/mathutils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/mathutils.py b/surfalize/mathutils.py
index 63aed9f..bfac093 100644
--- a/surfalize/mathutils.py
+++ b/surfalize/mathutils.py
@@ -142,7 +142,9 @@ def otsu_threshold(values, nbins=256):
     # Between-class variance for a threshold placed between bin i and i+1
     variance12 = weight1[:-1] * weight2[1:] * (mean1[:-1] - mean2[1:]) ** 2
     idx = np.argmax(variance12)
-    return bin_centers[idx]
+    # The classes are separated by the edge between bin i and i+1. The center of bin i would assign the values in its
+    # upper half, which belong to the lower class, to the upper class.
+    return bin_edges[idx + 1]
 
 
 def argmax_all(arr):
-- 
2.43.0


From e1b56e67493693c07823c569122dcbdf9582b3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 12/73] fix: stepheight and cavity_volume refuse non-measured
 points instead of returning NaN and zero volume

---
 surfalize/surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 9092c8c..1e3a9b4 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -822,6 +822,7 @@ class Surface(BaseTopography):
 
     @batch_method('parameter')
     @cache
+    @no_nonmeasured_points
     def stepheight(self):
         """
         Calculates the stepheight of two-level ablation experiment.
@@ -835,6 +836,7 @@ class Surface(BaseTopography):
         return step_height
 
     @batch_method('parameter')
+    @no_nonmeasured_points
     def cavity_volume(self, threshold=0.50):
         """
         Calculates the cavity volume of a flat surface containing an ablation crater with a leveled bottom plane.
-- 
2.43.0


From 21593b125d67678eeaca45d76db6288dd3fb2f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 13/73] fix: slicing a surface backwards keeps positive step
 sizes and lateral dimensions

---
 surfalize/surface.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 1e3a9b4..a1eee27 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -262,12 +262,12 @@ class Surface(BaseTopography):
         step_x = self.step_x
         if isinstance(item, slice):
             if item.step is not None:
-                step_y = item.step * self.step_y
+                step_y = abs(item.step) * self.step_y
         if isinstance(item, tuple):
             if isinstance(item[0], slice) and item[0].step is not None:
-                step_y = item[0].step * self.step_y
+                step_y = abs(item[0].step) * self.step_y
             if isinstance(item[1], slice) and item[1].step is not None:
-                step_x = item[1].step * self.step_x
+                step_x = abs(item[1].step) * self.step_x
         return Surface(self._data.__getitem__(item).copy(), step_x, step_y)
 
     @classmethod
-- 
2.43.0


From 0041e024e7c2fad08f138159dc5bfb16e201e9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:15 +0000
Subject: [PATCH 14/73] fix: height_parameters returns an independent
 dictionary instead of the cached one

---
 surfalize/surface.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index a1eee27..a52903b 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -861,8 +861,6 @@ class Surface(BaseTopography):
    
     # Height parameters ################################################################################################
 
-    @cache
-    @no_nonmeasured_points
     def height_parameters(self):
         """
         Calculates the roughness parameters from the height parameter family.
@@ -872,6 +870,12 @@ class Surface(BaseTopography):
         -------
         dict[str: float]
         """
+        # Return a copy, since editing the dictionary would otherwise alter the cached parameters
+        return dict(self._height_parameters())
+
+    @cache
+    @no_nonmeasured_points
+    def _height_parameters(self):
         mean = self.data.mean()
         centered_data = self.data - mean
         abs_centered_data = np.abs(centered_data)
-- 
2.43.0


From bc18e7df74fe5a0993b8baa9b33bc19cb18658eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 15/73] fix: write the header lines of ascii sdf files on
 separate lines instead of embedding the bytes literal of the newline

---
 surfalize/file/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sdf.py b/surfalize/file/sdf.py
index bc34e9b..963620e 100644
--- a/surfalize/file/sdf.py
+++ b/surfalize/file/sdf.py
@@ -186,7 +186,7 @@ def write_sdf(filehandle, surface, encoding='utf-8', binary=True):
         CRLF = '\n'.encode('ascii')
         filehandle.write(MAGIC_ASCII + CRLF)
         for k, v in header.items():
-            filehandle.write(f'{k} = {v}{CRLF}'.encode('ascii'))
+            filehandle.write(f'{k} = {v}'.encode('ascii') + CRLF)
         filehandle.write('*'.encode('ascii') + CRLF)
         line_values = []
         for i, value in enumerate(data.flatten()):
-- 
2.43.0


From c0bfe514b088ca2461375106b8f62b17873e10ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 16/73] fix: subtract the lower end of the integer range when
 sflz height data is scaled back

---
 surfalize/file/sflz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index d9fd329..bd7026b 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -86,7 +86,7 @@ def read_sflz(filehandle, encoding='utf-8', read_image_layers=True):
                 max_val = header['max_value']
                 dtype_min = np.iinfo(layer_header['datatype']).min
                 dtype_max = np.iinfo(layer_header['datatype']).max
-                height_data = (height_data.astype('float64') + dtype_min) / (dtype_max - dtype_min)
+                height_data = (height_data.astype('float64') - dtype_min) / (dtype_max - dtype_min)
                 height_data = height_data * (max_val - min_val) + min_val
         else:
             image_layers[layer_header['name']] = data
-- 
2.43.0


From 90e60ddc8696fa36033e056fcbad1010c2d2c56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 17/73] fix: store sflz height data with non-measured points as
 floats instead of losing the entire topography

---
 surfalize/file/sflz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index bd7026b..ee17b02 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -108,6 +108,9 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
 
     dtype = np.dtype(dtype)
     data = surface.data
+    if dtype.kind in ['i', 'u'] and surface.has_missing_points:
+        # Integers cannot represent non-measured points
+        dtype = np.dtype('<f8')
     if dtype.kind in ['i', 'u']:
         # perform scaling
         min_val = data.min()
-- 
2.43.0


From 71ca3aa1e2c848521eadccb255a5f6095308c21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 18/73] fix: return editable arrays from the sflz reader

---
 surfalize/file/sflz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index ee17b02..aefdd02 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -74,7 +74,7 @@ def read_sflz(filehandle, encoding='utf-8', read_image_layers=True):
         layer_header = LAYOUT_LAYER_HEADER.read(filehandle)
         compressed_data = filehandle.read(layer_header['size'])
         data = decompress(compressed_data, compression_algorithm)
-        data = np.frombuffer(data, dtype=layer_header['datatype'])
+        data = np.frombuffer(data, dtype=layer_header['datatype']).copy()
         if layer_header['channels'] > 1:
             data = data.reshape(layer_header['height'], layer_header['width'], layer_header['channels'])
         else:
-- 
2.43.0


From d98b3e581b9966feb0286f0329534a44c81314b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 19/73] fix: encode the length of sflz image layer names in
 bytes

---
 surfalize/file/sflz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index aefdd02..3713d87 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -147,7 +147,7 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
             data = compress(layer.data.tobytes(), compression)
 
             layer_header = {
-                'name_length': len(name),
+                'name_length': len(name.encode('utf-8')),
                 'name': name,
                 'width': layer.data.shape[1],
                 'height': layer.data.shape[0],
-- 
2.43.0


From f2c2eefa87df67080ed13eba4235fe9ad21b4171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 20/73] fix: write the size of the compressed data to the sur
 header

---
 surfalize/file/sur.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index f9117ea..facd745 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -376,6 +376,13 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
 
     comment = comment.encode(encoding)
 
+    compressed_data_size = 0
+    if compressed:
+        uncompressed_data = data.tobytes()
+        compressed_data = zlib.compress(uncompressed_data)
+        # Size of the directory count, a single directory and the data stream
+        compressed_data_size = 12 + len(compressed_data)
+
     header = {
         'code': MAGIC_CLASSIC if not compressed else MAGIC_COMPRESSED,
         'format': 0,  # PC Format
@@ -422,7 +429,7 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
         'year': timestamp.year,
         'week_day': timestamp.weekday(),
         'measurement_duration': 0,
-        'compressed_data_size': 0,
+        'compressed_data_size': compressed_data_size,
         'length_comment': len(comment),
         'length_private': 0,
         'client_zone': 'Exported by surfalize',
@@ -442,8 +449,6 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
         write_array(data, filehandle)
         return
     else:
-        uncompressed_data = data.tobytes()
-        compressed_data = zlib.compress(uncompressed_data)
         # Write directory count = 1 and the length of a single data stream containing all the compressed data
         filehandle.write(struct.pack('<3I', 1, len(uncompressed_data), len(compressed_data)))
         filehandle.write(compressed_data)
-- 
2.43.0


From f78eb70a10dc876686a18598c5279eeb99fcf278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:05 +0000
Subject: [PATCH 21/73] fix: do not divide by zero when a surface of constant
 height is written to a sur file

---
 surfalize/file/sur.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index facd745..d03761d 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -366,7 +366,9 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
     INT_DATA_MAX = INT32_MAX - 1
     data_max = np.nanmax(surface.data)
     data_min = np.nanmin(surface.data)
-    data = ((surface.data - data_min) / (data_max - data_min)) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
+    # If all points have the same height, there is no range to divide by
+    data_range = data_max - data_min if data_max > data_min else 1
+    data = ((surface.data - data_min) / data_range) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
     if nm_points:
         data[np.isnan(data)] = INT_DATA_MIN - 2
     data = data.astype('int32')
-- 
2.43.0


From 9d73da5076a4cd9a3b1a24fc5cdec2760cfdea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:17 +0000
Subject: [PATCH 22/73] fix: shape of the image layer of non-square nms files

---
 surfalize/file/nms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/nms.py b/surfalize/file/nms.py
index 3e5a7ea..a822679 100644
--- a/surfalize/file/nms.py
+++ b/surfalize/file/nms.py
@@ -36,7 +36,7 @@ def read_nms(filehandle, read_image_layers=False, encoding='utf-8'):
     step_y = dy * 1e-3
     image_layers = {}
     if read_image_layers:
-        image_layers['Grayscale'] = read_array(filehandle, dtype=DTYPE_IMG, count=nx * ny).reshape(ny, ny)
+        image_layers['Grayscale'] = read_array(filehandle, dtype=DTYPE_IMG, count=nx * ny).reshape(ny, nx)
 
     metadata = dict(date=date)
 
-- 
2.43.0


From 685d9c9354dd38d03608d37b2d79b4756f368b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 23/73] fix: step size of xyz files is the distance of
 neighbouring points

---
 surfalize/file/xyz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/xyz.py b/surfalize/file/xyz.py
index 51f795f..d20737e 100644
--- a/surfalize/file/xyz.py
+++ b/surfalize/file/xyz.py
@@ -18,8 +18,8 @@ def read_xyz(filehandle, read_image_layers=False, encoding='utf-8'):
     ny = y.size
     if nx * ny != raw_data.shape[0]:
         raise CorruptedFileError('Number of datapoints does not match expected size.')
-    step_x = (x.max() - x.min()) / (nx) * 10**6
-    step_y = (y.max() - y.min()) / (ny) * 10**6
+    step_x = (x.max() - x.min()) / max(nx - 1, 1) * 10**6
+    step_y = (y.max() - y.min()) / max(ny - 1, 1) * 10**6
     data = raw_data[:,2].copy().reshape(ny, nx) * 10**6
 
     return RawSurface(data, step_x, step_y)
\ No newline at end of file
-- 
2.43.0


From 7ff8b3fe632d9c1da2ab3c21ec024c1a3da9ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 24/73] fix: use the unit of y for the y step of fits files

---
 surfalize/file/fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 1159b58..e8a00c5 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -109,7 +109,7 @@ def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
         mask = layers['MASK'].data.astype('bool')
         data[~mask] = np.nan
     x_factor = header['UnitMultiplicatorDeltas'] * get_unit_conversion(header['UNITX'], 'um')
-    y_factor = header['UnitMultiplicatorDeltas'] * get_unit_conversion(header['UNITX'], 'um')
+    y_factor = header['UnitMultiplicatorDeltas'] * get_unit_conversion(header['UNITY'], 'um')
     z_factor = header['UnitMultiplicatorHeights'] * get_unit_conversion(header['UNITZ'], 'um')
     step_x = header['DELTAX'] * x_factor
     step_y = header['DELTAY'] * y_factor
-- 
2.43.0


From da63ca4232f400d820ffb1c651f4ef818b23801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 25/73] fix: do not skip a block after fits data that fill
 their last block

---
 surfalize/file/fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index e8a00c5..a92ec31 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -92,7 +92,7 @@ def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
                               count=hdu_header['NAXIS1'] * hdu_header['NAXIS2']).reshape(hdu_header['NAXIS2'],
                                                                                           hdu_header['NAXIS1'])
             # Skip the remaining blocksize
-            filehandle.seek(BLOCKSIZE - (datasize % BLOCKSIZE), 1)
+            filehandle.seek(-datasize % BLOCKSIZE, 1)
             layers[hdu_header['EXTNAME']] = HeaderDataUnit(hdu_header, data)
 
         if filehandle.tell() >= filesize:
-- 
2.43.0


From deedf69f44fc9903f1fbd65b405823cc008a9012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 26/73] fix: os3d files without image can be read with image
 layers

---
 surfalize/file/os3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/os3d.py b/surfalize/file/os3d.py
index 83d2983..d1d1aa7 100644
--- a/surfalize/file/os3d.py
+++ b/surfalize/file/os3d.py
@@ -42,7 +42,7 @@ def read_os3d(filehandle, read_image_layers=False, encoding='utf-8'):
     metadata = header
     metadata['timestamp'] = dateutil.parser.parse(header['chArrayMeasureDateTime'])
 
-    has_image = struct.unpack('b', filehandle.read(1))
+    has_image = struct.unpack('b', filehandle.read(1))[0]
     image_layers = {}
     if has_image and read_image_layers:
         img_data = io.BytesIO(filehandle.read())
-- 
2.43.0


From dd6b990b1e59018303d2e44309f882608dd77e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 27/73] fix: heights of plux files can be edited

---
 surfalize/file/plux.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/plux.py b/surfalize/file/plux.py
index 590bd21..591bd20 100644
--- a/surfalize/file/plux.py
+++ b/surfalize/file/plux.py
@@ -42,10 +42,10 @@ def read_plux(filehandle, read_image_layers=False, encoding='utf-8'):
     step_y = float(root.find('GENERAL/FOV_Y').text)
     size = shape_x * shape_y
 
-    data = np.frombuffer(data_raw, dtype=np.float32, count=size).reshape((shape_y, shape_x))
+    data = np.frombuffer(data_raw, dtype=np.float32, count=size).reshape((shape_y, shape_x)).copy()
     image_layers = {}
     if read_image_layers:
-        img = np.frombuffer(img_raw, dtype=np.uint8).reshape((shape_y, shape_x, 3))
+        img = np.frombuffer(img_raw, dtype=np.uint8).reshape((shape_y, shape_x, 3)).copy()
         if np.all((img[:, :, 0] == img[:, :, 1]) & (img[:, :, 0] == img[:, :, 2])):
             image_layers['Grayscale'] = img[:, :, 0]
         else:
-- 
2.43.0


From 69a332aa2eda7e9a0c188a259abf1f9a8516938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 28/73] fix: plux files without image can be read with image
 layers

---
 surfalize/file/plux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/plux.py b/surfalize/file/plux.py
index 591bd20..8c646ca 100644
--- a/surfalize/file/plux.py
+++ b/surfalize/file/plux.py
@@ -44,7 +44,7 @@ def read_plux(filehandle, read_image_layers=False, encoding='utf-8'):
 
     data = np.frombuffer(data_raw, dtype=np.float32, count=size).reshape((shape_y, shape_x)).copy()
     image_layers = {}
-    if read_image_layers:
+    if read_image_layers and IMAGE_FILE_NAME in contents:
         img = np.frombuffer(img_raw, dtype=np.uint8).reshape((shape_y, shape_x, 3)).copy()
         if np.all((img[:, :, 0] == img[:, :, 1]) & (img[:, :, 0] == img[:, :, 2])):
             image_layers['Grayscale'] = img[:, :, 0]
-- 
2.43.0


From 768150e9d49ffbd390a602da7efc1cdb788a1142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 29/73] fix: integer heights of x3p files

---
 surfalize/file/x3p.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/x3p.py b/surfalize/file/x3p.py
index 4dcb6e0..6d7cddd 100644
--- a/surfalize/file/x3p.py
+++ b/surfalize/file/x3p.py
@@ -88,7 +88,15 @@ def read_x3p(filehandle, read_image_layers=False, encoding='utf-8'):
             raise CorruptedFileError('Binary file containing topographical data not found.') from None
 
         with archive.open(bin_path, 'r') as data_file:
-            data = read_array(data_file, dtype=dtype).reshape(ny, nx) * CONVERSION_FACTOR
+            data = read_array(data_file, dtype=dtype).reshape(ny, nx)
+
+        # Integer heights are counted in multiples of the increment of the z-axis
+        if data.dtype.kind in 'iu':
+            data = data.astype('float64')
+            increment_z = cz.find('Increment')
+            if increment_z is not None:
+                data *= float(increment_z.text)
+        data = data * CONVERSION_FACTOR
 
         metadata = {}
         if record2 is not None:
-- 
2.43.0


From ac1b82c135bf78a67c28dd20c031e840e28cd8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 30/73] =?UTF-8?q?fix:=20find=20height=20channels=20of=20gw?=
 =?UTF-8?q?y=20files=20given=20in=20=C2=B5m?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 surfalize/file/gwy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index b68caab..c355397 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -2,7 +2,7 @@ import re
 import struct
 import numpy as np
 
-from .common import get_unit_conversion, RawSurface, UNIT_EXPONENT, FileHandler, read_array, decode
+from .common import get_unit_conversion, RawSurface, FileHandler, read_array, decode
 from ..exceptions import FileFormatError, UnsupportedFileFormatError
 
 MAGIC = b'GWYP'
@@ -41,8 +41,11 @@ def _filter_candidates_by_z_unit_presence(tree, candidates):
     for layer_key in candidates:
         if 'si_unit_z' in tree['GwyContainer'][f'/{layer_key}/data']['GwyDataField']:
             unit = tree['GwyContainer'][f'/{layer_key}/data']['GwyDataField']['si_unit_z']['GwySIUnit']['unitstr']
-            if unit in UNIT_EXPONENT.keys():
-                reduced_candidates.append(layer_key)
+            try:
+                get_unit_conversion(unit, 'um')
+            except ValueError:
+                continue
+            reduced_candidates.append(layer_key)
     return reduced_candidates
 
 def _filter_candidates_by_name(tree, candidates, guesses=('height', 'topo')):
-- 
2.43.0


From 16bc8a5233ad32e47d8c94edb5bb3742adfbc6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 31/73] fix: read the metadata of ascii sdf files from the
 trailer

---
 surfalize/file/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sdf.py b/surfalize/file/sdf.py
index 963620e..e1b9cbe 100644
--- a/surfalize/file/sdf.py
+++ b/surfalize/file/sdf.py
@@ -91,7 +91,7 @@ def read_ascii_sdf(filehandle, encoding="utf-8"):
     # If we want to parse this as xml, we need to clean it up first with a regex anyway, so we may as well use it
     # to parse it, even though it is an evil thing to do
     pattern = r'< ?\b(\w+)\b ?>(.*)< ?/ ?\b\1\b ?>'
-    metadata.update({k: v.strip() for k, v in re.findall(pattern, data_section)})
+    metadata.update({k: v.strip() for k, v in re.findall(pattern, trailer_section)})
 
     return RawSurface(data, step_x, step_y, metadata=metadata, image_layers=None)
 
-- 
2.43.0


From 966377f927657bfc8d7e1d1c2aac612467a90e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 32/73] fix: format overrides the suffix when a surface is
 saved

---
 surfalize/file/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 575f38b..4557138 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -507,12 +507,13 @@ class FileHandler:
                                          'magic.')
 
     def write(self, surface, encoding='utf-8', **kwargs):
-        if self.is_path_like():
+        if self.format is None and self.is_path_like():
             suffix = self.file.suffix
         else:
             suffix = self.format
         if not suffix:
             raise ValueError('No format for the file specified.') from None
+        suffix = suffix.lower()
         if suffix not in self._writers:
             raise UnsupportedFileFormatError(
                 f"File format {suffix} is currently not supported for writing.") from None
-- 
2.43.0


From 6031a1dd443be8f26fa8d603b79d1d4aa46cd920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 33/73] fix: restore the position of a buffer when reading
 fails

---
 surfalize/file/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 4557138..6287d2e 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -179,8 +179,10 @@ def open_file_like(file_or_path, mode='r'):
             yield f
     elif isinstance(file_or_path, io.IOBase):
         current_pos = file_or_path.tell()
-        yield file_or_path
-        file_or_path.seek(current_pos, 0)
+        try:
+            yield file_or_path
+        finally:
+            file_or_path.seek(current_pos, 0)
     else:
         raise TypeError("Expected a file path or file-like object")
 
-- 
2.43.0


From a95769e6993eda04c3686ebbb2732d252ec7f909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 34/73] fix: probing the readers also works for buffers

---
 surfalize/file/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 6287d2e..0dc41dc 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -496,9 +496,10 @@ class FileHandler:
                     warnings.simplefilter('ignore')
                     result = reader(filehandle, read_image_layers=read_image_layers, encoding=encoding)
                 # The probing succeeded, so we emit the mismatch warning outside the suppression context
-                warnings.warn(f'The file suffix indicates a file of type {self.file.suffix}. However, the file '
-                              f'seems to actually be of type {reader_suffix}. Check if the file extensions is '
-                              f'correct. The file was now loaded as {reader_suffix}.')
+                if self.is_path_like():
+                    warnings.warn(f'The file suffix indicates a file of type {self.file.suffix}. However, the file '
+                                  f'seems to actually be of type {reader_suffix}. Check if the file extensions is '
+                                  f'correct. The file was now loaded as {reader_suffix}.')
                 return result
             except Exception:
                 pass
-- 
2.43.0


From 1c0123b1d923855dfbb0fc06c068035aca6f9a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:32 +0000
Subject: [PATCH 35/73] fix: do not loop forever when a fits file ends in its
 header

---
 surfalize/file/fits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index a92ec31..42d558e 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -1,6 +1,6 @@
 import numpy as np
 from .common import RawSurface, get_unit_conversion, FileHandler, read_array, decode
-from ..exceptions import FileFormatError, UnsupportedFileFormatError
+from ..exceptions import CorruptedFileError, FileFormatError, UnsupportedFileFormatError
 
 MAGIC = b'SIMPLE'
 BLOCKSIZE = 2880
@@ -58,6 +58,8 @@ def read_header(filehandle, encoding='auto'):
     header = dict()
     while not has_ended:
         block = filehandle.read(BLOCKSIZE)
+        if not block:
+            raise CorruptedFileError('Unexpected end of file in the header.')
         partial_header, has_ended = parse_header_block(decode(block, encoding))
         header.update(partial_header)
     return header
-- 
2.43.0


From 709918390775bbb08271079a6bcc6b2666b23119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:55 +0000
Subject: [PATCH 36/73] =?UTF-8?q?fix:=20recognise=20wrong=20decodings=20of?=
 =?UTF-8?q?=20=C2=B5m=20that=20contain=20upper=20case=20letters?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 surfalize/file/common.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 0dc41dc..b194c1a 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -111,6 +111,14 @@ def _sanitize_mu(string):
     return string
 
 
+def _normalize_unit(unit):
+    normalized = _sanitize_mu(unit).lower()
+    if normalized not in UNIT_EXPONENT:
+        # The known incorrect decodings are case-sensitive, so they need to be looked up in the original string
+        normalized = fix_decoding_issues(unit)
+    return normalized
+
+
 def get_unit_conversion(from_unit, to_unit):
     """
     Calculates unit conversion factor.
@@ -127,13 +135,8 @@ def get_unit_conversion(from_unit, to_unit):
     factor : float
         Factor by which to multiply the original values.
     """
-    from_unit = _sanitize_mu(from_unit)
-    from_unit = from_unit.lower()
-    to_unit = to_unit.lower()
-    if from_unit not in UNIT_EXPONENT:
-        from_unit = fix_decoding_issues(from_unit)
-    if to_unit not in UNIT_EXPONENT:
-        to_unit = fix_decoding_issues(to_unit)
+    from_unit = _normalize_unit(from_unit)
+    to_unit = _normalize_unit(to_unit)
     if from_unit not in UNIT_EXPONENT:
         raise ValueError(f'Unit {from_unit} does not exist.')
     if to_unit not in UNIT_EXPONENT:
-- 
2.43.0


From 62cabee83c528e4f8ea1e97ba4556e1bd3c968e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 37/73] fix: rotation by an angle keeps the pixel size

---
 surfalize/surface.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index a52903b..cd73f75 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -643,10 +643,9 @@ class Surface(BaseTopography):
         xmax = int(nx - (nx - w)/2) - 1
         
         rotated_cropped = rotated[ymin:ymax+1, xmin:xmax+1]
-        width_um = (self.width_um * pre_comp_cos + self.height_um * pre_comp_sin) * w / nx
-        height_um = (self.width_um * pre_comp_sin + self.height_um * pre_comp_cos) * h / ny
-        step_y = height_um / rotated_cropped.shape[0]
-        step_x = width_um / rotated_cropped.shape[1]
+        # A step along an axis of the rotated image runs along both axes of the original image
+        step_x = np.hypot(self.step_x * pre_comp_cos, self.step_y * pre_comp_sin)
+        step_y = np.hypot(self.step_x * pre_comp_sin, self.step_y * pre_comp_cos)
 
         if inplace:
             self._set_data(data=rotated_cropped, step_x=step_x, step_y=step_y)
-- 
2.43.0


From 9e6eab2954c6949c8c8881afd1d96cfa9196cbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 38/73] fix: rotated surfaces contain no points from outside

---
 surfalize/surface.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index cd73f75..99f35a0 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -623,16 +623,17 @@ class Surface(BaseTopography):
         rotated = ndimage.rotate(self.data, angle, reshape=True)
 
         aspect_ratio = self.size.y / self.size.x
-        rotated_aspect_ratio = rotated.shape[0] / rotated.shape[1]
+
+        pre_comp_sin = np.abs(np.sin(np.deg2rad(angle)))
+        pre_comp_cos = np.abs(np.cos(np.deg2rad(angle)))
 
         if aspect_ratio < 1:
+            # The shape of the rotated array is rounded to whole pixels and too coarse for the aspect ratio
+            rotated_aspect_ratio = (pre_comp_sin + aspect_ratio * pre_comp_cos) / (pre_comp_cos + aspect_ratio * pre_comp_sin)
             total_height = self.size.y / rotated_aspect_ratio
         else:
             total_height = self.size.x
 
-        pre_comp_sin = np.abs(np.sin(np.deg2rad(angle)))
-        pre_comp_cos = np.abs(np.cos(np.deg2rad(angle)))
-
         w = total_height / (aspect_ratio * pre_comp_sin + pre_comp_cos)
         h = w * aspect_ratio
 
-- 
2.43.0


From 3e892eb1204bad2a82337423dcd0b02b498c8ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 39/73] fix: orientation of textures exactly along an axis

---
 surfalize/surface.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 99f35a0..9512318 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1414,7 +1414,9 @@ class Surface(BaseTopography):
         # jumps back by one period. For this to be true, we need to sample at least a couple points between each
         # periodic interval, which is determined by SAMPLE_RATE_FACTOR
         diff_norm = np.abs((diff - np.median(diff)))
-        diff_norm = diff_norm / np.abs(diff_norm).max()
+        # If all profiles have exactly the same offset there are no outliers to normalize to
+        if diff_norm.max() > 0:
+            diff_norm = diff_norm / diff_norm.max()
         # Here we remove all values that deviate more than 5% from the median slope
         THRESHOLD = 0.05
         d = diff[diff_norm < THRESHOLD].mean()
@@ -1423,7 +1425,7 @@ class Surface(BaseTopography):
         angle = np.rad2deg(np.arctan(d / dist_px))
         # If the texture is more aligned with the horizontal axis, we need to correct the angle
         if period_x > period_y:
-            angle = np.sign(angle) * 90 - angle
+            angle = np.copysign(90, angle) - angle
         return angle
 
     @batch_method('parameter')
-- 
2.43.0


From 1816f488ed878c36d92230c8d347474ab792c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 40/73] fix: orientation of textures with periods below ten
 pixels

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 9512318..803ece8 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1389,12 +1389,12 @@ class Surface(BaseTopography):
         if period_y > period_x:
             # We sample at 0.25 * period because we need to at least obey the Nyquist theorem
             period_px = int(period_x / self.step_x)
-            dist_px = int(period_px * SAMPLE_RATE_FACTOR)
+            dist_px = max(int(period_px * SAMPLE_RATE_FACTOR), 1)
             nprofiles = int(self.size.y / dist_px)
             get_profile = lambda idx: self.data[idx]
         else:
             period_px = int(period_y / self.step_y)
-            dist_px = int(period_px * SAMPLE_RATE_FACTOR)
+            dist_px = max(int(period_px * SAMPLE_RATE_FACTOR), 1)
             nprofiles = int(self.size.x / dist_px)
             get_profile = lambda idx: self.data[:, idx]
 
-- 
2.43.0


From 4841c8d07b19fa01d7f2ebdd5d64377f7ec37f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 41/73] fix: profile positions of depth() stay on the surface

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 803ece8..a3c810d 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1569,11 +1569,11 @@ class Surface(BaseTopography):
             # Calculate the number of intervals per profile
             nintervals = int(self.width_um / periodx)
             period_px = periodx / self.step_x
-            profile_dist_px = int(size.y / (nprofiles-1))
+            profile_dist_px = (size.y - 1) // max(nprofiles - 1, 1)
         else:
             nintervals = int(self.height_um / periody)
             period_px = periody / self.step_y
-            profile_dist_px = int(size.x / (nprofiles-1))
+            profile_dist_px = (size.x - 1) // max(nprofiles - 1, 1)
 
         # Allocate depth array with twice the length of the number of periods to accommodate both peaks and valleys
         # multiplied by the number of sampled profiles
-- 
2.43.0


From 5ae60f4be280747b692d7d5204311e9806963388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 42/73] fix: period of profiles with small amplitude

---
 surfalize/mathutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/mathutils.py b/surfalize/mathutils.py
index bfac093..daea0da 100644
--- a/surfalize/mathutils.py
+++ b/surfalize/mathutils.py
@@ -199,7 +199,7 @@ def get_period_fft_1d(xdata, ydata):
     """
     fft = np.abs(np.fft.fft(ydata))
     freq = np.fft.fftfreq(len(ydata), d=xdata[1] - xdata[0])
-    peaks, properties = find_peaks(fft.flatten(), distance=10, prominence=10)
+    peaks, properties = find_peaks(fft.flatten(), distance=10, prominence=0)
     # Find the prominence of the peaks
     prominences = properties['prominences']
     # Sort in descending order by computing sorting indices
-- 
2.43.0


From ec73bf26d8f2582e68ce36ff961eee74e61279c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 43/73] fix: period of profiles with an offset

---
 surfalize/mathutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/mathutils.py b/surfalize/mathutils.py
index daea0da..af19379 100644
--- a/surfalize/mathutils.py
+++ b/surfalize/mathutils.py
@@ -197,7 +197,8 @@ def get_period_fft_1d(xdata, ydata):
     -------
     period : float
     """
-    fft = np.abs(np.fft.fft(ydata))
+    # Without its mean the data has no peak at zero frequency that could hide the neighboring frequencies
+    fft = np.abs(np.fft.fft(ydata - np.mean(ydata)))
     freq = np.fft.fftfreq(len(ydata), d=xdata[1] - xdata[0])
     peaks, properties = find_peaks(fft.flatten(), distance=10, prominence=0)
     # Find the prominence of the peaks
-- 
2.43.0


From 13e167c08c90bfe80157865017ac7a62105dc11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:16 +0000
Subject: [PATCH 44/73] fix: orientation of textures with equal periods along x
 and y

---
 surfalize/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index a3c810d..c93fcb9 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1424,7 +1424,7 @@ class Surface(BaseTopography):
         # Compute the angle
         angle = np.rad2deg(np.arctan(d / dist_px))
         # If the texture is more aligned with the horizontal axis, we need to correct the angle
-        if period_x > period_y:
+        if period_x >= period_y:
             angle = np.copysign(90, angle) - angle
         return angle
 
-- 
2.43.0


From 6f7cbe2fe59a7d3a287c62a01b00f369e397de67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:16 +0000
Subject: [PATCH 45/73] fix: initial period of the refined orientation

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index c93fcb9..5ec055e 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1388,12 +1388,12 @@ class Surface(BaseTopography):
 
         if period_y > period_x:
             # We sample at 0.25 * period because we need to at least obey the Nyquist theorem
-            period_px = int(period_x / self.step_x)
+            period_px = period_x / self.step_x
             dist_px = max(int(period_px * SAMPLE_RATE_FACTOR), 1)
             nprofiles = int(self.size.y / dist_px)
             get_profile = lambda idx: self.data[idx]
         else:
-            period_px = int(period_y / self.step_y)
+            period_px = period_y / self.step_y
             dist_px = max(int(period_px * SAMPLE_RATE_FACTOR), 1)
             nprofiles = int(self.size.x / dist_px)
             get_profile = lambda idx: self.data[:, idx]
-- 
2.43.0


From 95f605e0e92830434fed45041c7e575c150b8528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:03 +0000
Subject: [PATCH 46/73] fix: custom batch parameters that fail with ignored
 errors

---
 surfalize/batch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 288ad43..79bb9f2 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -390,6 +390,8 @@ class _CustomParameter:
         except CalculationError as error:
             if not ignore_errors:
                 raise error
+            # The names of the parameters are not known, they are filled with nan in the dataframe
+            result = dict()
         return result
 
 
-- 
2.43.0


From 07ed8079b33a57f71c4cc03b924cea35f4bf1c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:14 +0000
Subject: [PATCH 47/73] fix: error for a custom parameter that is registered
 twice

---
 surfalize/batch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 79bb9f2..9976921 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -383,6 +383,7 @@ class _CustomParameter:
     def __init__(self, func):
         self.func = func
         self.name = id(func)
+        self.identifier = getattr(func, '__name__', repr(func))
 
     def calculate_from(self, surface, ignore_errors=True):
         try:
-- 
2.43.0


From 1959e8ab25830fe0de1fb2e98fb89bbbbe9edf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 48/73] fix: convert a file to a new file of another format
 than .sur

---
 surfalize/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index 3b920a6..e0205b4 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -200,7 +200,8 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
     """
     Convert a file or all files in a directory to another format.
     """
-    if output_path.is_file():
+    # A single file is converted to the format of the output file, whether or not that file already exists
+    if output_path.is_file() or (input_path.is_file() and output_path.suffix):
         format = output_path.suffix
 
     if format != '.sur' and compressed:
-- 
2.43.0


From e0492f25863ac5424ae06ba9b9ffa756446a5795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 49/73] fix: convert files with upper-case suffix

---
 surfalize/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index e0205b4..71cb7aa 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -204,6 +204,7 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
     if output_path.is_file() or (input_path.is_file() and output_path.suffix):
         format = output_path.suffix
 
+    format = format.lower()
     if format != '.sur' and compressed:
         raise click.BadParameter(
             "The --compressed flag is only valid for .sur format."
@@ -227,7 +228,7 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
 
     output_path.mkdir(parents=True, exist_ok=True)
     for input_file in input_path.iterdir():
-        if input_file.is_file() and input_file.suffix in supported_formats_read:
+        if input_file.is_file() and input_file.suffix.lower() in supported_formats_read:
             out = output_path / (input_file.stem + format)
             convert_file(input_file, out, skip_image_layers, **kwargs)
             click.echo(f"Converted {input_file} → {out}")
-- 
2.43.0


From 1b6633504dc58029d012695b092e44a33a8820f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 50/73] fix: convert to a file without suffix

---
 surfalize/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index 71cb7aa..6c92f27 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -217,7 +217,7 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
         )
         return
 
-    kwargs = {}
+    kwargs = {'format': format}
     if format == '.sur':
         kwargs['compressed'] = compressed
 
-- 
2.43.0


From 5cd7d3597b1a096dacf532474a9e13f3e593d2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 51/73] fix: special characters in file name templates are
 literal

---
 surfalize/batch.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 9976921..dd97fd9 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -1,5 +1,6 @@
 import inspect
 import io
+import re
 from multiprocessing.pool import ThreadPool
 from functools import partial
 from dataclasses import dataclass
@@ -136,7 +137,7 @@ class FilenameParser:
         """
         patterns = []
         for token in tokens:
-            s = token.prefix
+            s = re.escape(token.prefix)
             s += f'(?P<{token.name}>'
             try:
                 s += self.TYPES[token.dtype]
@@ -144,12 +145,12 @@ class FilenameParser:
                 raise ParsingError(f'The datatype {token.dtype} is invalid. '
                                    f'Possible datatypes are "int", "float", "str"') from None
             s += ')'
-            s += token.suffix
+            s += re.escape(token.suffix)
             patterns.append(s)
         regex = ''
         for pattern, separator in zip(patterns, separators):
-            regex += separator + pattern
-        regex += separators[-1]
+            regex += re.escape(separator) + pattern
+        regex += re.escape(separators[-1])
         return regex
 
     def extract_from(self, df, column):
-- 
2.43.0


From e63122826d5c575a3cfda51b3577be6eab28a268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 52/73] fix: file extensions in any case when adding a
 directory to a Batch

---
 surfalize/batch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index dd97fd9..1528464 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -613,7 +613,7 @@ class Batch:
         elif isinstance(file_extensions, str):
             file_extensions = [file_extensions]
         for extension in file_extensions:
-            filepaths.extend(list(dir_path.glob(f'*{extension}')))
+            filepaths.extend(file for file in dir_path.iterdir() if file.name.lower().endswith(extension.lower()))
         return cls(filepaths, additional_data=additional_data)
 
     def add_files(self, files):
@@ -662,7 +662,7 @@ class Batch:
         elif isinstance(file_extensions, str):
             file_extensions = [file_extensions]
         for extension in file_extensions:
-            self._files.extend(list(dir_path.glob(f'*{extension}')))
+            self._files.extend(file for file in dir_path.iterdir() if file.name.lower().endswith(extension.lower()))
         return self
 
     def _disptach_tasks(self, multiprocessing=True, ignore_errors=True, on_file_complete=None,
-- 
2.43.0


From 2ba75c515120fd870454396d3c732af42abea162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 53/73] fix: reports of files with upper-case suffix in a
 directory

---
 surfalize/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index 6c92f27..4705899 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -256,7 +256,7 @@ def report(input_path, open_after, periodic_parameters, **kwargs):
     if input_path.is_dir():
         files = []
         for ext in supported_formats_read:
-            files.extend(input_path.glob(f'*{ext}'))
+            files.extend(file for file in input_path.iterdir() if file.suffix.lower() == ext)
     else:
         files = [input_path]
 
-- 
2.43.0


From 0ad90f418f6d36eac7b55eaeac7e1fa0846a362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 54/73] fix: convert integer heights to floating point numbers

---
 surfalize/profile.py | 3 ++-
 surfalize/surface.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index fc62f5a..76665bd 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -84,7 +84,8 @@ class Profile(BaseTopography):
 
     @data.setter
     def data(self, value):
-        self._data = value
+        # Integer heights can hold neither fractions nor non-measured points
+        self._data = value.astype('float64') if value.dtype.kind in 'biu' else value
         self.length_um = (value.shape[0] - 1) * self.step
         self.clear_cache()
 
diff --git a/surfalize/surface.py b/surfalize/surface.py
index 5ec055e..ae5203b 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -139,7 +139,8 @@ class Surface(BaseTopography):
 
     @data.setter
     def data(self, value):
-        self._data = value
+        # Integer heights can hold neither fractions nor non-measured points
+        self._data = value.astype('float64') if value.dtype.kind in 'biu' else value
         self.width_um = (value.shape[1] - 1) * self.step_x
         self.height_um = (value.shape[0] - 1) * self.step_y
         self.clear_cache()
-- 
2.43.0


From a94ade41cdbc349da7b3bbd66b747d6b65d128b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:23 +0000
Subject: [PATCH 55/73] fix: crop spectra of odd size symmetrically

---
 surfalize/fourier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surfalize/fourier.py b/surfalize/fourier.py
index b86d2d2..e152cf0 100644
--- a/surfalize/fourier.py
+++ b/surfalize/fourier.py
@@ -268,12 +268,13 @@ class FourierTransform(CachedInstance):
 
         if fxmax is not None:
             ixmax = argclosest(fxmax, freq_x)
-            ixmin = M - ixmax
+            # The zero frequency lies at index M // 2 for both even and odd M
+            ixmin = 2 * (M // 2) - ixmax
             fft = fft[:, ixmin:ixmax + 1]
 
         if fymax is not None:
             iymax = argclosest(fymax, freq_y)
-            iymin = N - iymax
+            iymin = 2 * (N // 2) - iymax
             fft = fft[iymin:iymax + 1]
 
         vmin = None
-- 
2.43.0


From 9399b3a5ffa710e0262e3796fde906cc9810e391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:09 +0000
Subject: [PATCH 56/73] fix: decode texts of Keyence files as UTF-16

---
 surfalize/file/vk.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/surfalize/file/vk.py b/surfalize/file/vk.py
index b8464dd..e693c69 100644
--- a/surfalize/file/vk.py
+++ b/surfalize/file/vk.py
@@ -3,7 +3,7 @@ import struct
 from datetime import datetime
 
 import numpy as np
-from .common import get_unit_conversion, RawSurface, read_array, Entry, Reserved, Layout, FileHandler, decode
+from .common import get_unit_conversion, RawSurface, read_array, Entry, Reserved, Layout, FileHandler
 from ..exceptions import CorruptedFileError
 
 HEADER_SIZE = 12
@@ -147,12 +147,10 @@ def read_string_data(filehandle, offset, encoding='auto'):
     filehandle.seek(offset, 0)
     str_data = dict()
     size_title = struct.unpack('I', filehandle.read(4))[0] * 2
-    # Every character is followed by a null byte. Therefore, we read twice the since of the expected string length and slice to
-    # remove every second character
-    str_data['title'] = decode(filehandle.read(size_title), encoding)[::2]
+    # The strings are encoded as UTF-16, therefore every character occupies two bytes
+    str_data['title'] = filehandle.read(size_title).decode('utf-16-le', errors='replace')
     size_lens_name = struct.unpack('I', filehandle.read(4))[0] * 2
-    # Same here
-    str_data['lens_name'] = decode(filehandle.read(size_lens_name), encoding)[::2]
+    str_data['lens_name'] = filehandle.read(size_lens_name).decode('utf-16-le', errors='replace')
     return str_data
 
 @FileHandler.register_reader(suffix='.vk4', magic=b'VK4_')
-- 
2.43.0


From 2aec4af95794e8d9e5404da6211a0cceaedeadf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:09 +0000
Subject: [PATCH 57/73] fix: keep all values of header entries with several
 values

---
 surfalize/file/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index b194c1a..70b6c2e 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -273,7 +273,10 @@ class Entry(BaseEntry):
         else:
             format = self.format
         size = struct.calcsize(format)
-        unpacked_data = struct.unpack(f'{format}', filehandle.read(size))[0]
+        unpacked_data = struct.unpack(f'{format}', filehandle.read(size))
+        # Keep all values of entries that contain more than one
+        if len(unpacked_data) == 1:
+            unpacked_data = unpacked_data[0]
         # The data is a string
         if isinstance(unpacked_data, bytes):
             unpacked_data = decode(unpacked_data, encoding).rstrip(' \x00')
-- 
2.43.0


From 5584f91ad04a42e31e169442e88e1b075e741bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:09 +0000
Subject: [PATCH 58/73] fix: respect the encoding when reading .dat and .tmd
 files

---
 surfalize/file/dat.py | 4 ++--
 surfalize/file/tmd.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/dat.py b/surfalize/file/dat.py
index 225e25d..83237ca 100644
--- a/surfalize/file/dat.py
+++ b/surfalize/file/dat.py
@@ -257,13 +257,13 @@ def read_dat(filehandle, read_image_layers=False, encoding='utf-8'):
     magic = filehandle.read(LEN_MAGIC)
     if magic not in (MAGIC_1, MAGIC_2, MAGIC_3):
         raise CorruptedFileError('Unrecognized magic detected.')
-    header = LAYOUT_HEADER.read(filehandle)
+    header = LAYOUT_HEADER.read(filehandle, encoding=encoding)
 
     if (magic, header['header_format'], header['header_size']) not in VALID_FORMAT_SPECIFICATIONS:
         raise CorruptedFileError('File is not a valid metropro file!')
 
     if header['header_format'] == 3:
-        header_3 = LAYOUT_HEADER_3.read(filehandle)
+        header_3 = LAYOUT_HEADER_3.read(filehandle, encoding=encoding)
 
     n_points = header['ac_width'] * header['ac_height'] * header['ac_n_buckets']
     if n_points * 2 != header['ac_n_bytes']:
diff --git a/surfalize/file/tmd.py b/surfalize/file/tmd.py
index 731535e..58e6868 100644
--- a/surfalize/file/tmd.py
+++ b/surfalize/file/tmd.py
@@ -24,7 +24,7 @@ def read_tmd(filehandle, read_image_layers=False, encoding='utf-8'):
     if magic != MAGIC:
         raise CorruptedFileError('Incorrect file magic detected.')
     filehandle.seek(0)
-    header = HEADER_LAYOUT.read(filehandle)
+    header = HEADER_LAYOUT.read(filehandle, encoding=encoding)
     data = read_array(filehandle, dtype=DTYPE)
     if data.size != header['height'] * header['width']:
         raise CorruptedFileError('Size of data does not match expectted size.')
-- 
2.43.0


From f0bd10869ec7a89821be7242579847f359854f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:09 +0000
Subject: [PATCH 59/73] fix: size of comments in .tmd files in bytes

---
 surfalize/file/tmd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/tmd.py b/surfalize/file/tmd.py
index 58e6868..a8d669a 100644
--- a/surfalize/file/tmd.py
+++ b/surfalize/file/tmd.py
@@ -36,11 +36,13 @@ def read_tmd(filehandle, read_image_layers=False, encoding='utf-8'):
 
 @FileHandler.register_writer(suffix='.tmd')
 def write_tmd(filehandle, surface, encoding='utf-8', comment='Exported by surfalize'):
-    if len(comment) > COMMENT_LEN:
+    # The size of the comment field is given in bytes, which may exceed the number of characters
+    comment_size = len(comment.encode(encoding))
+    if comment_size > COMMENT_LEN:
         raise ValueError(f'Comment has too many characters. Maximum number allows is {COMMENT_LEN}')
     header = {
         'header': decode(MAGIC, encoding) + LINE_TERMINATION,
-        'comment': comment + ' ' * (COMMENT_LEN - len(comment)) + LINE_TERMINATION,
+        'comment': comment + ' ' * (COMMENT_LEN - comment_size) + LINE_TERMINATION,
         'width': surface.size.x,
         'height': surface.size.y,
         'length_x': surface.size.x * surface.step_x,
@@ -48,5 +50,5 @@ def write_tmd(filehandle, surface, encoding='utf-8', comment='Exported by surfal
         'offset_x': 0,
         'offset_y': 0,
     }
-    HEADER_LAYOUT.write(filehandle, header)
+    HEADER_LAYOUT.write(filehandle, header, encoding=encoding)
     write_array(surface.data.astype(DTYPE), filehandle)
\ No newline at end of file
-- 
2.43.0


From 7a6349cc61eb60cb79f3ca03c2097a5a0a5139d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:09 +0000
Subject: [PATCH 60/73] fix: parse commentary records and strings in FITS
 headers

---
 surfalize/file/fits.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 42d558e..452e66c 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -1,3 +1,4 @@
+import re
 import numpy as np
 from .common import RawSurface, get_unit_conversion, FileHandler, read_array, decode
 from ..exceptions import CorruptedFileError, FileFormatError, UnsupportedFileFormatError
@@ -37,19 +38,25 @@ def parse_header_block(block):
     header = dict()
     block_ended = False
     for line in lines:
-        if not line or line.startswith('COMMENT'):
+        # Skip commentary records, which do not have a value
+        if line[:8].rstrip() in ('', 'COMMENT', 'HISTORY'):
             continue
         if line == 'END':
             block_ended = True
             break
-        if '/' in line:
-            line = line.split('/')[0]
-        left, right = line.split('=')
+        if '=' not in line:
+            continue
+        left, right = line.split('=', 1)
         left = left.strip()
         right = right.strip()
+        if right.startswith("'"):
+            # Strings can contain the characters that otherwise begin a comment, quotes inside of them are doubled
+            right = re.match(r"'((?:[^']|'')*)", right).group(1).replace("''", "'").strip()
+        else:
+            right = convert_dtype(right.split('/')[0].strip())
         if left.startswith('HIERARCH'):
             left = left.replace('HIERARCH ', '')
-        header[left] = convert_dtype(right)
+        header[left] = right
     return header, block_ended
 
 
-- 
2.43.0


From 71560efa89340183c36bcfa344245050f4c26082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:09 +0000
Subject: [PATCH 61/73] fix: FITS extension headers with more than one block

---
 surfalize/file/fits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 452e66c..747e421 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -93,7 +93,9 @@ def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
     while True:
         block = filehandle.read(BLOCKSIZE)
         if block.startswith(b'XTENSION'):
-            hdu_header, has_ended = parse_header_block(decode(block, encoding))
+            # The header can consist of more than one block
+            filehandle.seek(-len(block), 1)
+            hdu_header = read_header(filehandle, encoding=encoding)
             if hdu_header['NAXIS'] != 2:
                 raise UnsupportedFileFormatError("Array with number of dimensions not equal to 2 detected.")
             datasize = hdu_header['NAXIS1'] * hdu_header['NAXIS2'] * int(abs(hdu_header['BITPIX'] / 8))
-- 
2.43.0


From f0216ce5abb674d48f9ef379d23daa2049572e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:09 +0000
Subject: [PATCH 62/73] fix: scale and blank value of FITS heights

---
 surfalize/file/fits.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 747e421..e9e8688 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -115,7 +115,11 @@ def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
     if not 'HEIGHTS' in layers:
         raise FileFormatError("No height layer found!")
 
-    data = layers['HEIGHTS'].data.astype('float64')
+    heights = layers['HEIGHTS']
+    data = heights.data.astype('float64')
+    if 'BLANK' in heights.header:
+        data[heights.data == heights.header['BLANK']] = np.nan
+    data = data * heights.header.get('BSCALE', 1) + heights.header.get('BZERO', 0)
     if 'MASK' in layers:
         mask = layers['MASK'].data.astype('bool')
         data[~mask] = np.nan
-- 
2.43.0


From f33e376cdffe7b430a9058771fd16b58b4caf09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:09 +0000
Subject: [PATCH 63/73] fix: ignore graphs and volume data when looking for
 channels in .gwy files

---
 surfalize/file/gwy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index c355397..26daf72 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -125,7 +125,7 @@ def guess_image_channels(tree, layer_candidates):
 def get_image_related_layer_keys(tree):
     image_related_layers = []
     for key in tree['GwyContainer']:
-        mo = re.search(r'/(\d+)/', key)
+        mo = re.match(r'/(\d+)/data$', key)
         if mo:
             image_related_layers.append(mo.group(1))
     return list(set(image_related_layers))
-- 
2.43.0


From 24af26504ebcd42e0f58a8fbd47af11d3da9123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:09 +0000
Subject: [PATCH 64/73] fix: channels without title in .gwy files

---
 surfalize/file/gwy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index 26daf72..9252035 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -70,7 +70,7 @@ def _filter_candidates_by_name(tree, candidates, guesses=('height', 'topo')):
     """
     reduced_candidates = []
     for layer_key in candidates:
-        title = tree['GwyContainer'][f'/{layer_key}/data/title'].lower()
+        title = tree['GwyContainer'].get(f'/{layer_key}/data/title', '').lower()
         if any([guess in title for guess in guesses]):
             reduced_candidates.append(layer_key)
     if not reduced_candidates:
@@ -257,7 +257,7 @@ def read_gwy(filehandle, read_image_layers=False, encoding='utf-8'):
         image_channel_keys = guess_image_channels(tree, image_related_layers)
         for layer_key in image_channel_keys:
             datafield = tree['GwyContainer'][f'/{layer_key}/data']['GwyDataField']
-            title = tree['GwyContainer'][f'/{layer_key}/data/title']
+            title = tree['GwyContainer'].get(f'/{layer_key}/data/title', layer_key)
             img_data = datafield['data']
 
             img_unit_xy = datafield['si_unit_xy']['GwySIUnit']['unitstr']
-- 
2.43.0


From 15571c64b435081d57506aac84a19381cdfb0fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:09 +0000
Subject: [PATCH 65/73] fix: points without intensity in .dat files

---
 surfalize/file/dat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/dat.py b/surfalize/file/dat.py
index 83237ca..acd913b 100644
--- a/surfalize/file/dat.py
+++ b/surfalize/file/dat.py
@@ -278,7 +278,8 @@ def read_dat(filehandle, read_image_layers=False, encoding='utf-8'):
         else:
             intensity_data = intensity_data.reshape(header['ac_height'], header['ac_width'])
             image_layers['Intensity'] = intensity_data
-        if np.nanmax(intensity_data) > header['ac_range']:
+        valid_data = intensity_data[intensity_data < INVALID_VALUE_INTENSITY]
+        if valid_data.size > 0 and valid_data.max() > header['ac_range']:
             raise CorruptedFileError('Points above specified range detected in intensity data!')
     else:
         filehandle.seek(header['ac_n_bytes'], 1)
-- 
2.43.0


From 286d749842f525eecd224406a32da8b4e5e227d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:01 +0000
Subject: [PATCH 66/73] fix: unit of the height offset in .sur files

---
 surfalize/file/sur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index d03761d..6cd4774 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -317,7 +317,7 @@ def get_surface(sur_obj):
     if sur_obj.header['non_measured_points'] == 1:
         data[nan_mask] = np.nan
 
-    data += sur_obj.header['offset_z']
+    data += sur_obj.header['offset_z'] * get_unit_conversion(sur_obj.header['unit_step_z'], 'um')
 
     # This can be implemented in the future when metadata support is needed
     # timestamp = datetime.datetime(year=header['year'], month=header['month'], day=header['day'])
-- 
2.43.0


From abfc6234c1f77c79aa29d3e2c0ac631b2641cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:36 +0000
Subject: [PATCH 67/73] fix: xyz files with points listed column by column

---
 surfalize/file/xyz.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/xyz.py b/surfalize/file/xyz.py
index d20737e..34bb3c7 100644
--- a/surfalize/file/xyz.py
+++ b/surfalize/file/xyz.py
@@ -20,6 +20,12 @@ def read_xyz(filehandle, read_image_layers=False, encoding='utf-8'):
         raise CorruptedFileError('Number of datapoints does not match expected size.')
     step_x = (x.max() - x.min()) / max(nx - 1, 1) * 10**6
     step_y = (y.max() - y.min()) / max(ny - 1, 1) * 10**6
-    data = raw_data[:,2].copy().reshape(ny, nx) * 10**6
+    data = raw_data[:,2].copy()
+    if np.all(raw_data[:ny,0] == raw_data[0,0]):
+        # The points are listed column by column
+        data = data.reshape(nx, ny).T
+    else:
+        data = data.reshape(ny, nx)
+    data = data * 10**6
 
     return RawSurface(data, step_x, step_y)
\ No newline at end of file
-- 
2.43.0


From ffccaa47fccff8e515d418c924ca661bd8e605e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:46 +0000
Subject: [PATCH 68/73] fix: material ratio of surfaces with equal heights

---
 surfalize/abbottfirestone.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surfalize/abbottfirestone.py b/surfalize/abbottfirestone.py
index 8233b1a..b952eb8 100644
--- a/surfalize/abbottfirestone.py
+++ b/surfalize/abbottfirestone.py
@@ -116,7 +116,8 @@ class AbbottFirestoneCurve(CachedInstance):
         # Intercept of the equivalence line at 100% ratio
         self._ylower = self._slope * 100 + self._intercept
 
-        self._smr_fit = interp1d(height, material_ratio)
+        # The negated heights are already in ascending order. Sorting them would shuffle the material ratios of equal heights
+        self._smr_fit = interp1d(-height, material_ratio, assume_sorted=True)
         self._height = height
         self._material_ratio = material_ratio
 
@@ -144,7 +145,7 @@ class AbbottFirestoneCurve(CachedInstance):
         -------
         float
         """
-        return float(self._smr_fit(c))
+        return float(self._smr_fit(-c))
 
     def mc(self, mr):
         """
-- 
2.43.0


From 20754d9372cdc6b5d4cad98a7385f7875978acab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:08 +0000
Subject: [PATCH 69/73] fix: name of measurements in containers written by
 Windows

---
 surfalize/file/cag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/cag.py b/surfalize/file/cag.py
index 364fabf..9a67812 100644
--- a/surfalize/file/cag.py
+++ b/surfalize/file/cag.py
@@ -1,11 +1,11 @@
 import re
-from pathlib import Path
+from pathlib import Path, PureWindowsPath
 import zipfile
 
 def parse_idx_table(idx_table_str):
     file_ids = re.findall(r'<Path>(.+)</Path>', idx_table_str)
     file_paths = re.findall(r'<OriginalFileName>(.+)</OriginalFileName>', idx_table_str)
-    file_names = [Path(file_path).name for file_path in file_paths]
+    file_names = [PureWindowsPath(file_path).name for file_path in file_paths]
     file_dict = dict(zip(file_ids, file_names))
     return file_dict
 
-- 
2.43.0


From 5112749bb6c86c17e79670eab77aa8e3e0ab1c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:16 +0000
Subject: [PATCH 70/73] fix: refuse reversed crop boxes

---
 surfalize/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index ae5203b..3a9aa42 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -706,7 +706,7 @@ class Surface(BaseTopography):
         else:
             x0, x1, y0, y1 = box
 
-        if x0 < 0 or y0 < 0 or x1 > self.size.x - 1 or y1 > self.size.y - 1:
+        if x0 < 0 or y0 < 0 or x1 > self.size.x - 1 or y1 > self.size.y - 1 or x0 > x1 or y0 > y1:
             raise ValueError('Box is out of bounds!')
 
         data = self.data[y0:y1 + 1, x0:x1 + 1].copy()
-- 
2.43.0


From 1691b8d1a66c88183ccf80a1f03583f666643ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 71/73] fix: integers extracted from filenames that do not
 match the pattern

---
 surfalize/batch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 1528464..b6a216b 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -174,7 +174,11 @@ class FilenameParser:
         for token in tokens:
             if token.dtype == 'float':
                 extracted[token.name] = extracted[token.name].str.replace(',', '.')
-            extracted[token.name] = extracted[token.name].astype(token.dtype)
+            dtype = token.dtype
+            # Only the nullable integer type can represent the filenames that do not match the pattern
+            if dtype == 'int' and extracted[token.name].isna().any():
+                dtype = 'Int64'
+            extracted[token.name] = extracted[token.name].astype(dtype)
         return extracted
 
     def apply_on(self, df, column, insert_after_column=True):
-- 
2.43.0


From f7dda54ca6aa3e9672e567f527c80c48e8ba3ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:53 +0000
Subject: [PATCH 72/73] fix: refuse zoom factors below one, which returned a
 block at the lower right corner

---
 surfalize/profile.py | 2 ++
 surfalize/surface.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index 76665bd..cccc3f9 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -261,6 +261,8 @@ class Profile(BaseTopography):
         -------
         profile : surfalize.Profile
         """
+        if factor < 1:
+            raise ValueError('The factor must not be smaller than 1.')
         n = self.size
         nn = int(n / factor)
         data = self.data[int((n - nn) / 2):nn + int((n - nn) / 2) + 1].copy()
diff --git a/surfalize/surface.py b/surfalize/surface.py
index 3a9aa42..94cc63a 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -673,6 +673,8 @@ class Surface(BaseTopography):
         surface : surfalize.Surface
             Surface object.
         """
+        if factor < 1:
+            raise ValueError('The factor must not be smaller than 1.')
         y, x = self.size
         xn, yn = int(x / factor), int(y / factor)
         data = self.data[int((y - yn) / 2):yn + int((y - yn) / 2) + 1, int((x - xn) / 2):xn + int((x - xn) / 2) + 1].copy()
-- 
2.43.0


From e0e2b3a22ae82ba793fad1648aa13b853f83c480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:22 +0000
Subject: [PATCH 73/73] fix: refuse the homogeneity of a surface without
 complete unit cell

---
 surfalize/surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 94cc63a..3c1dba7 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1511,6 +1511,8 @@ class Surface(BaseTopography):
         ncells_x = int(self.size.x / cell_length_x)
         ncells_y = int(self.size.y / cell_length_y)
         ncells = ncells_x * ncells_y
+        if ncells == 0:
+            raise ValueError('The surface does not contain a complete unit cell.')
         results = np.zeros((len(parameters), ncells))
         for i in range(ncells_y):
             for j in range(ncells_x):
-- 
2.43.0

