From e66935208085ef1c9090ad2652c2e5d6c28ec5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 01/38] fix: peak in the first hour of a day is assigned to
 that day

The hour index was divided by 24 and rounded up, so a peak in the first hour of
a day was booked on the day before (on day 0, in the previous month, if it was
the first hour of the month). The hybrid time steps then ran backwards.
---
 ghedt/peak_load_analysis_tool/ground_loads.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index b66ba95..8699dcc 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -188,9 +188,12 @@ class Loads:
             # Average monthly load in kW
             self.monthly_average[i] = self.monthly_total[i] / len(month_loads)
 
-            # Day of month the peak load occurs (e.g. 1-31)
-            self.monthly_peak_day[i] = math.ceil(month_loads.index(
-                self.monthly_peak[i]) / hours_in_day)
+            # Day of month the peak load occurs (e.g. 1-31), the day is 0 if
+            # there is no load in the month
+            self.monthly_peak_day[i] = month_loads.index(
+                self.monthly_peak[i]) // hours_in_day + 1
+            if self.monthly_peak[i] == 0.:
+                self.monthly_peak_day[i] = 0
 
             hours_in_previous_months += hours_in_month
 
-- 
2.43.0


From 74c89c39a0f5aa3248b16503a54aaaadeb8fe8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 02/38] fix: hybrid loads lost the peak energy when both peaks
 fall on one day

The peaks are not placed in that case, but the average rate had been computed
with the energy of the peaks taken out.
---
 ghedt/peak_load_analysis_tool/ground_loads.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 8699dcc..0b3e267 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -600,6 +600,10 @@ class HybridLoad:
                 # This is also used for the case where ipf[i] is False
                 # A more sophisticated default could be use, like placing the
                 # peaks on the 10th and 20th
+                # The peaks are not placed, so the average rate has to carry
+                # the total load of the month
+                mrate = (cl.monthly_total[mi] - hl.monthly_total[mi]) / \
+                    (monthdays(mi) * 24)
                 lastavghour = lastmonthhour(i)
                 self.load = np.append(self.load, mrate)
                 self.hour = np.append(self.hour, lastavghour)
-- 
2.43.0


From 696e134e840c11096e8cc2396f55c6746807cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 03/38] fix: hybrid time steps ran backwards for long or
 adjacent peaks

A peak longer than a day on the first or last day of a month reached into the
neighbouring month, and two long peaks on adjacent days overlapped. Keep each
peak within its month and after the time step before it.
---
 ghedt/peak_load_analysis_tool/ground_loads.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 0b3e267..66180a9 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -538,6 +538,9 @@ class HybridLoad:
         lastzerohour = firstmonthhour(self.startmonth) - 1
         self.hour = np.append(self.hour, lastzerohour)
 
+        # The smallest time between the end of two time steps (hours)
+        _min_step = 1.0e-6
+
         for i in range(self.startmonth, self.endmonth + 1):
             mi = i % 12  # month index
             if mi == 0:
@@ -556,6 +559,19 @@ class HybridLoad:
                     if (order[k].monthly_peak[mi] > 0 and include_peak):
                         _first_hour_peak, _last_hour_peak = \
                             order[k].peak_hour_range(mi, i)
+                        # Keep the peak within the current month, after the
+                        # time step before it, and leave room for the peak that
+                        # may follow it, otherwise the time runs backwards
+                        _durations = [o.monthly_peak_duration[mi] + _min_step
+                                      for o in order[k:]
+                                      if o.monthly_peak[mi] > 0]
+                        _latest = lastmonthhour(i) - sum(_durations)
+                        _earliest = self.hour[-1] + _min_step
+                        if not _earliest <= _first_hour_peak <= _latest:
+                            _first_hour_peak = \
+                                max(min(_first_hour_peak, _latest), _earliest)
+                            _last_hour_peak = _first_hour_peak + \
+                                order[k].monthly_peak_duration[mi]
                         self.load = np.append(self.load, rate)
                         self.hour = np.append(self.hour, _first_hour_peak)
                         # peak
-- 
2.43.0


From 1ce7745c7b31ed6193e9ae1d6f11b0a0db0cc06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 04/38] fix: hybrid simulation applied its first load from hour
 0 of the first year

With a start month after January the first average load was stretched over all
the months before the start of the simulation.
---
 ghedt/ground_heat_exchangers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index d0dc134..6695b47 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -296,7 +296,9 @@ class GHE(BaseGHE):
 
         if method == 'hybrid':
             Q_dot = self.hybrid_load.load[2:] * 1000.  # convert to Watts
-            time_values = self.hybrid_load.hour[2:]  # convert to seconds
+            # hours since the start of the simulation
+            time_values = \
+                self.hybrid_load.hour[2:] - self.hybrid_load.hour[1]
 
             HPEFT, dTb = self._simulate_detailed(Q_dot, time_values, g)
         elif method == 'hourly':
-- 
2.43.0


From 68f41508a1d92e7e0e97a6c820083f4f814f27e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 05/38] fix: hourly simulation of a period other than full
 calendar years

It ended with an IndexError when the number of months was not a multiple of 12,
and used the loads of January for any start month.
---
 ghedt/ground_heat_exchangers.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index 6695b47..f0f45d7 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -302,13 +302,16 @@ class GHE(BaseGHE):
 
             HPEFT, dTb = self._simulate_detailed(Q_dot, time_values, g)
         elif method == 'hourly':
-            n_months = \
-                self.sim_params.end_month - self.sim_params.start_month + 1
-            n_hours = int(n_months / 12. * 8760.)
+            first_hour = plat.ground_loads.firstmonthhour(
+                self.sim_params.start_month) - 1
+            last_hour = plat.ground_loads.lastmonthhour(
+                self.sim_params.end_month)
+            n_hours = last_hour - first_hour
             Q_dot = copy.deepcopy(self.hourly_extraction_ground_loads)
             # How many times does q need to be repeated?
-            n_years = int(np.ceil(n_hours / 8760))
-            Q_dot = Q_dot * n_years
+            n_years = int(np.ceil(last_hour / 8760))
+            # Take the hours between the start and end month
+            Q_dot = (Q_dot * n_years)[first_hour:last_hour]
             Q_dot = -1. * np.array(Q_dot)  # Convert loads to rejection
             t = np.arange(1, n_hours + 1, 1)
 
-- 
2.43.0


From f25a7185fc4151177b1dab3c8f846951a2fafcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 06/38] fix: sizing went to the maximum height when the minimum
 height suffices

If the temperatures are within their limits at the minimum height, the height
was left at the maximum and the user was told that it is not deep enough.
---
 ghedt/ground_heat_exchangers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index f0f45d7..671e172 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -333,16 +333,21 @@ class GHE(BaseGHE):
             self.bhe.b.H = H
             max_HP_EFT, min_HP_EFT = self.simulate(method=method)
             T_excess = self.cost(max_HP_EFT, min_HP_EFT)
-            return T_excess
+            # The excess temperature decreases with height, and solve_root
+            # expects a function that increases
+            return -T_excess
 
         # Make the initial guess variable the average of the heights given
         self.bhe.b.H = \
             (self.sim_params.max_Height + self.sim_params.min_Height) / 2.
         # bhe.b.H is updated during sizing
-        plat.equivalance.solve_root(
+        H_sized = plat.equivalance.solve_root(
             self.bhe.b.H, local_objective, lower=self.sim_params.min_Height,
             upper=self.sim_params.max_Height, xtol=1.0e-6, rtol=1.0e-6,
             maxiter=50)
+        # The maximum height was simulated last if no root was bracketed
+        if H_sized == self.sim_params.min_Height:
+            local_objective(H_sized)
         if self.bhe.b.H == self.sim_params.min_Height:
             warnings.warn('The minimum height provided to size this ground heat'
                           ' exchanger is not shallow enough. Provide a '
-- 
2.43.0


From a334ad99f975626b86d3ac6c93b4dbe66479ac2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 07/38] fix: g-function interpolation depended on the calls
 made before

The interpolation table kept the kind and the extrapolation of the first call,
so a height outside of the range raised a ValueError after a height inside of it
had been requested, and a different kind was ignored.
---
 ghedt/gfunction.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index 99f1e5b..fffa46a 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -205,8 +205,11 @@ class GFunction:
             if required_curves > len(height_values):
                 kind = curves_by_kind[len(height_values)]
 
-        # if the interpolation table is not yet know, build it
-        if len(self.interpolation_table) == 0:
+        # if the interpolation table is not yet know, or was built for another
+        # kind of interpolation or without extrapolation, build it
+        settings = (kind, fill_value)
+        if self.interpolation_table.get('settings') != settings:
+            self.interpolation_table = {'settings': settings}
             # create an interpolation for the g-function which takes the height
             # (or equivilant height) as an input the g-function needs to be
             # interpolated at each point in dimensionless time
-- 
2.43.0


From a94d0c676901ee465d0799d3e006308d8f86a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 08/38] fix: a single g-function was used for any B/H

The check whether the requested B/H is the one the g-function was computed for
did not take the absolute value of the difference, so the error was never
raised and the g-function of another height was silently used.
---
 ghedt/gfunction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index fffa46a..3f35e1d 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -176,12 +176,12 @@ class GFunction:
             elif num_curves == 2:
                 kind = 'linear'
             else:
-                if (H_eq-height_values[0]) / height_values[0] < 0.001:
+                if abs(H_eq-height_values[0]) / height_values[0] < 0.001:
                     g_function = self.g_lts[height_values[0]]
                     rb = self.r_b_values[height_values[0]]
                     D = self.D_values[height_values[0]]
                     return g_function, rb, D, H_eq
-                elif min(height_values) - H_eq < 0.001:
+                elif abs(min(height_values) - H_eq) < 0.001:
                     g_function = self.g_lts[height_values[0]]
                     rb = self.r_b_values[height_values[0]]
                     D = self.D_values[height_values[0]]
-- 
2.43.0


From 92b96bff3e2578c0dc43c473d7df112464d7c8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 09/38] fix: update_thermal_resistance kept the pipe flow rate
 of construction

The convection coefficient was not updated for a new borehole flow rate.
---
 ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index 1a90f24..350e6f1 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -151,6 +151,8 @@ class SingleUTube(BasePipe, gt.pipes.SingleUTube):
         else:
             self.fluid = fluid
 
+        self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
+            m_flow_borehole, None)
         self.compute_resistances()
         R_fp = self.R_f + self.R_p
         self.update_thermal_resistances(R_fp)
@@ -204,6 +206,8 @@ class MultipleUTube(BasePipe, gt.pipes.MultipleUTube):
         else:
             self.fluid = fluid
 
+        self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
+            m_flow_borehole, self.config)
         self.compute_resistances()
 
         self.compute_resistances()
@@ -408,6 +412,7 @@ class CoaxialPipe(CoaxialBase, gt.pipes.Coaxial, BasePipe):
         else:
             self.fluid = fluid
 
+        self.m_flow_pipe = m_flow_borehole
         self.compute_resistances()
 
         # Compute resistances that are stored by pygfunction
-- 
2.43.0


From 0f10f18a0f9a5cbbe209f3e70721b7661207be07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 10/38] fix: remove_cutout failed without a boundary

Its default boundary, and the default building description of
polygonal_land_constraint, is an empty polygon, which cv2 does not accept.
---
 ghedt/feature_recognition.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ghedt/feature_recognition.py b/ghedt/feature_recognition.py
index 14a41c3..c2284a4 100644
--- a/ghedt/feature_recognition.py
+++ b/ghedt/feature_recognition.py
@@ -37,7 +37,11 @@ def remove_cutout(coordinates, boundary=None, remove_inside=True,
     boundary_points_idx = []
     for i in range(len(coordinates)):
         coordinate = coordinates[i]
-        dist = cv2.pointPolygonTest(_boundary, coordinate, False)
+        # cv2 does not take an empty contour, every point is outside of it
+        if len(boundary) == 0:
+            dist = -1.0
+        else:
+            dist = cv2.pointPolygonTest(_boundary, coordinate, False)
         if dist > 0.0:
             inside_points_idx.append(i)
         elif dist < 0.0:
-- 
2.43.0


From 2d4400b6372eee5c97bcf9c09821058a12387e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 11/38] fix: polygonal domains contained fields without any
 borehole

Fields whose boreholes all lie in the building were kept as empty fields, which
cannot be simulated.
---
 ghedt/domains.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index f9018f6..4b55a33 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -376,8 +376,11 @@ def polygonal_land_constraint(property_boundary, B_min, B_max_x, B_max_y,
             new_coordinates = dt.feature_recognition.remove_cutout(
                 new_coordinates, boundary=building_description,
                 remove_inside=True, keep_contour=False)
+            if len(new_coordinates) == 0:
+                continue
             new_coordinates_domain.append(new_coordinates)
-        coordinates_domain_nested_cutout.append(new_coordinates_domain)
+        if len(new_coordinates_domain) > 0:
+            coordinates_domain_nested_cutout.append(new_coordinates_domain)
 
     coordinates_domain_nested_cutout_reordered = []
     for i in range(len(coordinates_domain_nested_cutout)):
-- 
2.43.0


From f5575cbd383c12041cc48813b0cab8402edc1259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 12/38] fix: reorder_domain dropped fields with the same number
 of boreholes

The first of them was repeated instead.
---
 ghedt/domains.py | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 4b55a33..59a466e 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -408,21 +408,7 @@ def verify_excess(domain):
 
 def reorder_domain(domain):
     # Reorder the domain so that the number of boreholes successively grow
-    numbers = {}
-    for i in range(len(domain)):
-        numbers[i] = len(domain[i])
-
-    sorted_values = sorted(numbers.values())
-
-    reordered_domain = []
-
-    for i in sorted_values:
-        for j in numbers.keys():
-            if numbers[j] == i:
-                reordered_domain.append(domain[j])
-                break
-
-    return reordered_domain
+    return sorted(domain, key=len)
 
 
 def visualize_domain(domain, output_folder_name):
-- 
2.43.0


From 0eb283c39c3ecc5613e5d995ea8e1b7e8e3eeaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 13/38] fix: bi-zoned fields left the land when the width
 exceeds the length

The first zoned field was not transposed, and the spacings of the fields before
it were computed with the sides of the land swapped.
---
 ghedt/domains.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 59a466e..3d8a3d4 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -212,6 +212,8 @@ def zoned_rectangle_domain(length_x, length_y, n_x, n_y, transpose=False):
     n_i2 = 1
 
     z = dt.coordinates.zoned_rectangle(n_1, n_2, b_1, b_2, n_i1, n_i2)
+    if transpose:
+        z = dt.coordinates.transpose_coordinates(z)
     zoned_rectangle_domain.append(z)
 
     while n_i1 < (n_1 - 2) or n_i2 < (n_2 - 2):
@@ -288,8 +290,8 @@ def bi_rectangle_zoned_nested(length_x, length_y, B_min, B_max_x, B_max_y):
     for i in range(len(n_1_values) + len(n_2_values)-1):
         domain = []
         if l == 0:
-            b_x = length_x / (N_min_1 - 1)
-            b_y = length_y / (N_min_2 - 1)
+            b_x = length_1 / (N_min_1 - 1)
+            b_y = length_2 / (N_min_2 - 1)
 
             # go from one borehole to a line
             for l in range(1, N_min_1 + 1):
-- 
2.43.0


From 6ec1ce05e5a943b1d211418bbfaf1f0383c8a6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 14/38] fix: bi-rectangular domains could contain a spacing
 below the minimum

length / (length / n) may exceed n by floating point error, which added a row
to the field.
---
 ghedt/domains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 3d8a3d4..3925960 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -120,7 +120,8 @@ def bi_rectangular(
     N_max = int(np.floor(n_1_max).tolist())
     for n_1 in range(N_min, N_max + 1):
 
-        n_2 = int(np.ceil((length_2 / B_max_2) + 1))
+        # Floating point error in the division should not add a row
+        n_2 = int(np.ceil(np.round(length_2 / B_max_2, 10) + 1))
         b_2 = length_2 / (n_2 - 1)
 
         b_1 = length_1 / (n_1 - 1)
-- 
2.43.0


From ecd1f878053ffbcfc8e7257d1b0fb37739ac3559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 15/38] fix: rectangular domain lacked the full row of
 boreholes on narrow land

If a single row fits at the maximum spacing, the domain ended with a row that
lacked its last borehole.
---
 ghedt/domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 3925960..77d312d 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -47,7 +47,7 @@ def rectangular(length_x, length_y, B_min, B_max, disp=False):
     N_min = int(np.ceil(n_1_min).tolist())
     N_max = int(np.floor(n_1_max).tolist())
 
-    n_2_old = 1
+    n_2_old = 0
 
     if disp:
         print(50 * '-')
-- 
2.43.0


From 5e1b7645faa1f0ff13db63cb3ee95b0be3ce9236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 16/38] fix: number_of_boreholes was off by one for some
 lengths

It did not invert length_of_side, because of floating point error.
---
 ghedt/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ghedt/utilities.py b/ghedt/utilities.py
index 8433034..4570a05 100644
--- a/ghedt/utilities.py
+++ b/ghedt/utilities.py
@@ -77,7 +77,8 @@ def make_rectangle_perimeter(length_x, length_y, origin=(0, 0)):
 
 
 def number_of_boreholes(length, B, func=np.ceil):
-    N = func(length / B) + 1
+    # Floating point error in the division should not add or remove a borehole
+    N = func(np.round(length / B, 10)) + 1
     return int(N)
 
 
-- 
2.43.0


From 846323e99ecfecf9f210333c891772c4910d6105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 17/38] fix: the field search failed on an excess temperature
 of exactly zero

---
 ghedt/search_routines.py | 2 +-
 ghedt/utilities.py       | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index f6d259a..c66363a 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -147,7 +147,7 @@ class Bisection1D:
             pass
         else:
             # This domain does not bracked the solution
-            if T_0_upper < 0.0 and T_m1 < 0.0:
+            if T_0_upper <= 0.0 and T_m1 <= 0.0:
                 msg = 'Based on the loads provided, the excess temperatures ' \
                       'for the minimum and maximum number of boreholes falls ' \
                       'below 0. This means that the loads are "miniscule" or ' \
diff --git a/ghedt/utilities.py b/ghedt/utilities.py
index 4570a05..3bfd7a7 100644
--- a/ghedt/utilities.py
+++ b/ghedt/utilities.py
@@ -101,6 +101,9 @@ def sign(x: float) -> int:
     :type x: float
     :return: a 1 or a -1
     """
+    if x == 0:
+        # An excess temperature of zero is within the limit
+        return -1
     return int(abs(x) / x)
 
 
-- 
2.43.0


From 9caebd12e4df0891b313dcbcec1f11082ca38ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 18/38] fix: Bisection2D searched the last domain when the
 first field suffices

---
 ghedt/search_routines.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index c66363a..28bba0d 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -252,7 +252,9 @@ class Bisection2D(Bisection1D):
 
         # We tacked on one borehole to the beginning, so we need to subtract 1
         # on the index
-        inner_domain = coordinates_domain_nested[selection_key-1]
+        if selection_key > 0:
+            selection_key -= 1
+        inner_domain = coordinates_domain_nested[selection_key]
         self.coordinates_domain = inner_domain
 
         # Reset calculated temperatures
-- 
2.43.0


From 4801dd69456931e4187f26b0aa92dacaa8a383bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 19/38] fix: output and export failed for shallow boreholes

Few short time step values remain below the long time steps, and the step size
for going over them became zero.
---
 ghedt/ground_heat_exchangers.py | 1 +
 ghedt/search_routines.py        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index 671e172..c99110d 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -265,6 +265,7 @@ class GHE(BaseGHE):
         number_sts_g_values = 50
         sts_step_size = int(np.floor((total_g_values - number_lts_g_values) /
                                      number_sts_g_values).tolist())
+        sts_step_size = max(sts_step_size, 1)
         lntts = []
         g_values = []
         for i in range(0, (total_g_values - number_lts_g_values),
diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index 28bba0d..ee786e9 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -400,6 +400,7 @@ def oak_ridge_export(bisection_search, file_name='ghedt_output'):
     number_sts_g_values = 30
     sts_step_size = int(np.floor((total_g_values - number_lts_g_values) /
                                  number_sts_g_values).tolist())
+    sts_step_size = max(sts_step_size, 1)
     lntts = []
     g_values = []
     for i in range(1, (total_g_values - number_lts_g_values),
-- 
2.43.0


From 0dc420c235e990e38f2e4bbebd1740242dc79652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 20/38] fix: an unknown routine failed the bi-rectangle input
 check

Design is meant to raise a ValueError which names the available routines.
---
 ghedt/media.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/media.py b/ghedt/media.py
index 8345d29..088bd3c 100644
--- a/ghedt/media.py
+++ b/ghedt/media.py
@@ -30,7 +30,7 @@ class GeometricConstraints:
             assert self.length is not None
             assert self.B_min is not None
             assert self.B_max_x is not None
-        elif method == 'bi-rectangle' or 'bi-zoned':
+        elif method in ['bi-rectangle', 'bi-zoned']:
             assert self.width is not None
             assert self.length is not None
             assert self.B_min is not None
-- 
2.43.0


From 02b6925feac1f1f79a2f7727002cad2fb6d8423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 21/38] fix: U_shape lacked one leg and always failed its own
 assertion

---
 ghedt/coordinates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ghedt/coordinates.py b/ghedt/coordinates.py
index 7f0b7a2..64d91f5 100644
--- a/ghedt/coordinates.py
+++ b/ghedt/coordinates.py
@@ -67,6 +67,7 @@ def U_shape(Nx, Ny, Bx, By):
             U.append((i * Bx, 0.))
         for j in range(1, Ny):
             U.append((0., j * By))
+            U.append(((Nx - 1) * Bx, j * By))
     else:
         nbh = Nx * Ny
         U = rectangle(Nx, Ny, Bx, By)
-- 
2.43.0


From e9b5e7c5ba720a63a8dec5f902e5b8a5147dcbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 22/38] fix: a month without load was given a peak duration

The two days before a month without load belong to the month before. If they
carry a load, a peak duration was computed for a peak of zero, and the energy of
the month of the other kind of load was spread over too few hours.
---
 ghedt/peak_load_analysis_tool/ground_loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 66180a9..ed3f001 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -284,7 +284,7 @@ class Loads:
             # monthly average cooling load (or heat rejection) in kW
             current_month_avg_cl = self.monthly_average[i]
 
-            if current_month_peak_cl != 0.0:
+            if self.monthly_peak[i] != 0.0:
                 peak_duration, q_peak, q_nominal = \
                     self.perform_current_month_simulation(
                         current_two_day_load, current_month_peak_cl,
-- 
2.43.0


From abf7544c588435f35facefff2e0ec1023a7f9400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 23/38] fix: the peak duration search failed for loads slightly
 above the peak

The two-day profile could exceed the peak it is compared with by up to the
absolute tolerance of 0.1 kW, so that no duration of the peak load reached its
temperature, and the interpolation failed (constant loads that differ slightly
from month to month, small loads).
---
 ghedt/peak_load_analysis_tool/ground_loads.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index ed3f001..47a7dbf 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -276,7 +276,7 @@ class Loads:
             # the previous month contains a higher load than the current month.
             load_diff = self.monthly_peak[i] - max(current_two_day_load)
             # monthly peak cooling load (or heat rejection) in kW
-            if abs(load_diff) < tol:
+            if 0.0 <= load_diff < tol:
                 current_month_peak_cl = self.monthly_peak[i]
             else:
                 current_month_peak_cl = max(current_two_day_load)
@@ -348,7 +348,8 @@ class Loads:
 
         if dT_fluid_nm_max > 0.0:
             f = scipy.interpolate.interp1d(dT_fluid_pk, hour_time)
-            peak_duration = f(dT_fluid_nm_max).tolist()
+            # Equal up to floating point error for a constant load
+            peak_duration = f(min(dT_fluid_nm_max, max(dT_fluid_pk))).tolist()
         else:
             peak_duration = 1.0e-6
 
-- 
2.43.0


From 57562fde4735a01390f04173d871e199ea7a7592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 24/38] fix: solve_root failed for a root located at a bound

The sign was computed by a division by the value of the objective function.
---
 ghedt/peak_load_analysis_tool/equivalance.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/equivalance.py b/ghedt/peak_load_analysis_tool/equivalance.py
index 8aab8ce..e30dccb 100644
--- a/ghedt/peak_load_analysis_tool/equivalance.py
+++ b/ghedt/peak_load_analysis_tool/equivalance.py
@@ -38,6 +38,11 @@ def solve_root(x, objective_function, lower=None, upper=None,
     # bracketed
     minus = objective_function(lower)
     plus = objective_function(upper)
+    # the bounds may be the root
+    if minus == 0.0:
+        return lower
+    if plus == 0.0:
+        return upper
     # get signs of upper and lower thermal conductivity bounds
     kg_minus_sign = int(minus / abs(minus))
     kg_plus_sign = int(plus / abs(plus))
-- 
2.43.0


From c12ce3fffc222292102463a849e06ab4677f1a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 25/38] fix: parallel U-tubes other than double U-tubes got
 half of the flow each

The flow of the borehole splits equally over the U-tubes, as pygfunction assumes
for the same configuration.
---
 .../borehole_heat_exchangers.py                        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index 350e6f1..f13b39c 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -10,8 +10,8 @@ class BasePipe(object):
         # borehole mass flow rate
         self.m_flow_borehole = m_flow_borehole
         # mass flow rate to each pipe
-        self.m_flow_pipe = self.compute_mass_flow_rate_pipe(m_flow_borehole,
-                                                            config)
+        self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
+            m_flow_borehole, config, n_pipes=pipe.n_pipes)
         # Store Thermal properties
         self.soil = soil
         self.grout = grout
@@ -78,11 +78,11 @@ class BasePipe(object):
         return
 
     @staticmethod
-    def compute_mass_flow_rate_pipe(m_flow_borehole, config):
+    def compute_mass_flow_rate_pipe(m_flow_borehole, config, n_pipes=2):
         if config == 'series' or config is None:
             m_flow_pipe = m_flow_borehole
         elif config == 'parallel':
-            m_flow_pipe = m_flow_borehole / 2.
+            m_flow_pipe = m_flow_borehole / float(n_pipes)
         else:
             raise ValueError('No such configuration exists.')
         return m_flow_pipe
@@ -207,7 +207,7 @@ class MultipleUTube(BasePipe, gt.pipes.MultipleUTube):
             self.fluid = fluid
 
         self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
-            m_flow_borehole, self.config)
+            m_flow_borehole, self.config, n_pipes=self.pipe.n_pipes)
         self.compute_resistances()
 
         self.compute_resistances()
-- 
2.43.0


From af18f09971d0156bc0b460e1c2acd0dd7ebac338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 26/38] fix: the report of a U-tube showed the Reynolds number
 of an annulus

The pipe roughness was passed as the outer radius of an annulus.
---
 ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index f13b39c..4c986c3 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -49,7 +49,7 @@ class BasePipe(object):
         output += self.fluid.__repr__()
         output += '\n'
 
-        Re = compute_Reynolds_concentric(
+        Re = compute_Reynolds(
             self.m_flow_pipe, self.pipe.r_in, self.pipe.eps, self.fluid)
 
         output += justify('Reynolds number', str(round(Re, 4)))
-- 
2.43.0


From ed160da795c060253dfd97b7d1c071736a7d81f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 27/38] fix: the average rejection of the synthetic loads
 ignored the units

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 47a7dbf..c3fa955 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -89,7 +89,7 @@ def create_synthetic_doubling_load_profile(units='W', year=2019) -> tuple:
         # The extraction monthly average load
         avg_hourly_load_ext: float = float(i) * scale
         # The rejection monthly average load
-        avg_hourly_load_rej: float = float(len(days_in_month) - i)
+        avg_hourly_load_rej: float = float(len(days_in_month) - i) * scale
 
         # The peak load occurs in day peak_day and for time peak_load_duration
         peak_load_ext: float = 2. * float(i) * scale  # The monthly peak load
-- 
2.43.0


From 4e76a1724cd6cd71432e7a1994fa2aec900beb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 28/38] fix: the load plot of the hybrid loads failed

It used an attribute that does not exist, and had extraction and rejection
swapped.
---
 ghedt/peak_load_analysis_tool/ground_loads.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index c3fa955..7e80822 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -706,12 +706,12 @@ class HybridLoad:
         hl = self.extraction
 
         for i in range(len(hl.hourly)):
-            if self.hourly_rejection_loads[i] != 0.0:
-                rejection.append((i, -hl.hourly[i]))
             if cl.hourly[i] != 0.0:
                 # Flip the sign back negative because split_heat_and_cool made
                 # all loads positive
-                extraction.append((i, cl.hourly[i]))
+                rejection.append((i, -cl.hourly[i]))
+            if hl.hourly[i] != 0.0:
+                extraction.append((i, hl.hourly[i]))
 
         fig = gt.gfunction._initialize_figure()
         ax = fig.add_subplot(111)
-- 
2.43.0


From 2a95e9c940827484789b03bae53ea166ac6d27b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 29/38] fix: the hourly load representation put the peaks on
 the day after

The days of the peaks are counted from 1, those of the synthetic loads from 0. A
peak on the last day of a month was lost, on the last day of the year it made
the year longer. A long peak next to the beginning of the year did so as well.
---
 ghedt/peak_load_analysis_tool/ground_loads.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 7e80822..e232ca4 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -38,6 +38,11 @@ def synthetic_load_function(
     # set the peak_load for a duration of peak_load_duration
     peak_load_start_hour = \
         math.floor(peak_day_noon - (float(peak_load_duration) / 2.))
+    # Keep the peak load within the month
+    peak_load_start_hour = max(
+        hours_in_previous_months,
+        min(peak_load_start_hour, hours_in_previous_months + hours_in_month -
+            peak_load_duration))
     hourly_loads[peak_load_start_hour:
                  peak_load_start_hour + peak_load_duration] = \
         [peak_load] * peak_load_duration
@@ -672,12 +677,12 @@ class HybridLoad:
             peak_load_duration_ext: int \
                 = int(round(hl.monthly_peak_duration[i]))
             # day of the month on which peak htg load occurs (e.g. 1-31)
-            peak_day_ext: int = hl.monthly_peak_day[i]
+            peak_day_ext: int = hl.monthly_peak_day[i] - 1
 
             peak_load_rej: float = cl.monthly_peak[i]
             peak_load_duration_rej: int \
                 = int(round(cl.monthly_peak_duration[i]))
-            peak_day_rej: int = cl.monthly_peak_day[i]
+            peak_day_rej: int = cl.monthly_peak_day[i] - 1
 
             synthetic_load_function(
                 hourly_extraction_loads, avg_hourly_load_ext, peak_load_ext,
-- 
2.43.0


From 998abd78ff69ffc90959a1d66b609b64822c2a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:11 +0000
Subject: [PATCH 30/38] fix: g-function interpolation failed slightly below the
 shallowest height

A height within 0.001 m below the range was accepted without extrapolation,
and interp1d then raised an error, while smaller and larger heights worked.
---
 ghedt/gfunction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index 3f35e1d..cfe253e 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -160,6 +160,8 @@ class GFunction:
         if min(height_values) <= H_eq <= max(height_values):
             fill_value = ''
         elif abs(min(height_values) - H_eq) < 0.001:
+            # Within the tolerance, but interp1d fails below its range
+            H_eq = min(height_values)
             fill_value = ''
         else:
             fill_value = 'extrapolate'
-- 
2.43.0


From b8f0e23a602af43f2c15913145ca50be308c2f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:47 +0000
Subject: [PATCH 31/38] fix: the fluid temperature plot of the hybrid loads
 swapped extraction and rejection

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 38 +++++++++----------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index e232ca4..8ba5dbd 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -779,40 +779,40 @@ class HybridLoad:
         hl = self.extraction
 
         if extraction:
-            # plot two day (48 hour) fluid temperatures for cooling with peak
+            # plot two day (48 hour) fluid temperatures for heating with peak
             # load
             ax.plot(two_day_hour_time,
-                    cl.monthly_two_day_fluid_temps_pk[month_num],
+                    hl.monthly_two_day_fluid_temps_pk[month_num],
                     'k--', label='Peak Extraction', zorder=0)
-            # plot two day (48 hour) fluid temperatures for cooling with nominal
+            # plot two day (48 hour) fluid temperatures for heating with nominal
             # load
             ax.plot(two_day_hour_time,
-                    cl.monthly_two_day_fluid_temps_nm[month_num],
+                    hl.monthly_two_day_fluid_temps_nm[month_num],
                     'b-', label='Extraction', zorder=1)
             # Draw horizontal line from max time to fluid sim
-            draw_horizontal(cl.monthly_two_day_fluid_temps_nm[month_num],
-                            cl.monthly_peak_duration[month_num])
-            pk_cl_duration = cl.monthly_peak_duration[month_num]
-            pk_cl_duration_rounded = round(pk_cl_duration, 1)
-            new_ticks.append(pk_cl_duration_rounded)
+            draw_horizontal(hl.monthly_two_day_fluid_temps_nm[month_num],
+                            hl.monthly_peak_duration[month_num])
+            pk_hl_duration = hl.monthly_peak_duration[month_num]
+            pk_hl_duration_rounded = round(pk_hl_duration, 1)
+            new_ticks.append(pk_hl_duration_rounded)
 
         if rejection:
-            # plot two day (48 hour) fluid temperatures for heating with peak
+            # plot two day (48 hour) fluid temperatures for cooling with peak
             # load
             ax.plot(two_day_hour_time,
-                    hl.monthly_two_day_fluid_temps_pk[month_num],
+                    cl.monthly_two_day_fluid_temps_pk[month_num],
                     'k.', label='Peak Rejection', zorder=0)
-            # plot two day (48 hour) fluid temperatures for heating with nominal
+            # plot two day (48 hour) fluid temperatures for cooling with nominal
             # load
             ax.plot(two_day_hour_time,
-                    hl.monthly_two_day_fluid_temps_nm[month_num],
+                    cl.monthly_two_day_fluid_temps_nm[month_num],
                     'r-.', label='Rejection', zorder=1)
-            draw_horizontal(hl.monthly_two_day_fluid_temps_nm[month_num],
-                            hl.monthly_peak_duration[month_num])
-            # duration of monthly peak htg load in hours
-            pk_hl_duration = hl.monthly_peak_duration[month_num]
-            pk_hl_duration_rounded = round(pk_hl_duration, 1)
-            new_ticks.append(pk_hl_duration_rounded)
+            draw_horizontal(cl.monthly_two_day_fluid_temps_nm[month_num],
+                            cl.monthly_peak_duration[month_num])
+            # duration of monthly peak clg load in hours
+            pk_cl_duration = cl.monthly_peak_duration[month_num]
+            pk_cl_duration_rounded = round(pk_cl_duration, 1)
+            new_ticks.append(pk_cl_duration_rounded)
 
         ax.set_xticks(list(ax.get_xticks()) + new_ticks)
 
-- 
2.43.0


From c45b9b33258df3ccb98182bf5cc74f2d94765750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:23 +0000
Subject: [PATCH 32/38] fix: fluid temperature plots showed another month after
 a month without load

Months without load were left out of the list of two-day temperatures that is
indexed by the month, so that the months after them were shifted, and plotting
the last ones failed.
---
 ghedt/peak_load_analysis_tool/ground_loads.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 8ba5dbd..0444d02 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -297,6 +297,10 @@ class Loads:
                         self.monthly_two_day_fluid_temps_nm)
             else:
                 peak_duration = 1.0e-6
+                # Keep the months in their places
+                no_change = [0.] * len(current_two_day_load)
+                self.monthly_two_day_fluid_temps_pk.append(no_change)
+                self.monthly_two_day_fluid_temps_nm.append(no_change)
 
             # Set the monthly cooling load duration
             self.monthly_peak_duration[i] = peak_duration
-- 
2.43.0


From 8ee96107c54460b98a9a6270a4bff6c8abf18ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:47 +0000
Subject: [PATCH 33/38] fix: segments='equal' divided the boreholes into
 unequal segments

---
 ghedt/gfunction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index cfe253e..d203923 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -36,7 +36,9 @@ def calculate_g_function(
     # setup options
     segments = segments.lower()
     if segments == 'equal':
-        options = {'nSegments': nSegments, 'disp': disp}
+        # Without segment ratios pygfunction divides the boreholes equally
+        options = {'nSegments': nSegments, 'segment_ratios': None,
+                   'disp': disp}
     elif segments == 'unequal':
         if segment_ratios is None:
             segment_ratios = gt.utilities.segment_ratios(
-- 
2.43.0


From 8fbc5bdd5f7d2c4d589b42cf6dca12a3a9e12325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:58 +0000
Subject: [PATCH 34/38] fix: effective resistance for a given flow or fluid
 used the old film coefficient

---
 .../borehole_heat_exchangers.py                | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index 4c986c3..ff7b051 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -91,20 +91,14 @@ class BasePipe(object):
             self, m_flow_borehole=None, fluid=None):
         # Compute the effective borehole thermal resistance
 
-        # if the mass flow rate has changed, then update it and use new value
-        if m_flow_borehole is None:
-            m_flow_borehole = self.m_flow_borehole
-        else:
-            self.m_flow_borehole = m_flow_borehole
-
-        # if the mass flow rate has changed, then update it and use new value
-        if fluid is None:
-            fluid = self.fluid
-        else:
-            self.fluid = fluid
+        # if the mass flow rate or the fluid has changed, then the fluid
+        # resistances that the effective resistance depends on change as well
+        if m_flow_borehole is not None or fluid is not None:
+            return self.update_thermal_resistance(
+                m_flow_borehole=m_flow_borehole, fluid=fluid)
 
         R_b_star = self.effective_borehole_thermal_resistance(
-            m_flow_borehole, fluid.cp)
+            self.m_flow_borehole, self.fluid.cp)
 
         return R_b_star
 
-- 
2.43.0


From 12de3f867816eca1a54503e0bb44879dd2a8ed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:23 +0000
Subject: [PATCH 35/38] fix: take land coordinates relative to the outline

cv2.pointPolygonTest works with 32 bit integers, so with coordinates of a
map projection (beyond 214 km) remove_cutout dropped every borehole.
---
 ghedt/feature_recognition.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ghedt/feature_recognition.py b/ghedt/feature_recognition.py
index c2284a4..bae5f37 100644
--- a/ghedt/feature_recognition.py
+++ b/ghedt/feature_recognition.py
@@ -25,7 +25,11 @@ def remove_cutout(coordinates, boundary=None, remove_inside=True,
     coordinates = scale_coordinates(coordinates, scale)
     boundary = scale_coordinates(boundary, scale)
 
-    _boundary = np.array(boundary, dtype=np.uint64)
+    _boundary = np.array(boundary, dtype=np.int64).reshape(-1, 2)
+    # cv2 works with 32 bit integers, so coordinates far from the origin (e.g.
+    # those of a map projection) are taken relative to the boundary
+    origin = [0, 0] if len(boundary) == 0 else _boundary.min(axis=0).tolist()
+    _boundary = (_boundary - origin).astype(np.uint64)
 
     # https://stackoverflow.com/a/50670359/11637415
     # Positive - point is inside the contour
@@ -41,6 +45,7 @@ def remove_cutout(coordinates, boundary=None, remove_inside=True,
         if len(boundary) == 0:
             dist = -1.0
         else:
+            coordinate = (coordinate[0] - origin[0], coordinate[1] - origin[1])
             dist = cv2.pointPolygonTest(_boundary, coordinate, False)
         if dist > 0.0:
             inside_points_idx.append(i)
-- 
2.43.0


From dbeae02687a1ccfc5126acc36263ee3cd62956d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:52 +0000
Subject: [PATCH 36/38] fix: hourly simulation of loads given as an array

Multiplying an array by the number of years scales it instead of repeating it.
---
 ghedt/ground_heat_exchangers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index c99110d..7f6170e 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -312,7 +312,7 @@ class GHE(BaseGHE):
             # How many times does q need to be repeated?
             n_years = int(np.ceil(last_hour / 8760))
             # Take the hours between the start and end month
-            Q_dot = (Q_dot * n_years)[first_hour:last_hour]
+            Q_dot = np.tile(Q_dot, n_years)[first_hour:last_hour]
             Q_dot = -1. * np.array(Q_dot)  # Convert loads to rejection
             t = np.arange(1, n_hours + 1, 1)
 
-- 
2.43.0


From bee417c635edd7112c1d86226cdf31a107f3b77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:01 +0000
Subject: [PATCH 37/38] fix: a repeated search kept the temperatures of the one
 before

---
 ghedt/search_routines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index ee786e9..2c8829b 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -109,6 +109,8 @@ class Bisection1D:
         return T_excess
 
     def search(self):
+        # Forget the fields of an earlier search
+        self.calculated_temperatures = {}
 
         xL_idx = 0
         xR_idx = len(self.coordinates_domain) - 1
-- 
2.43.0


From ce918c83940776fbe027d977d6cb5eb0253156aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:30 +0000
Subject: [PATCH 38/38] fix: the search for the least drilling ended at 99999 m

---
 ghedt/search_routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index 2c8829b..533bb52 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -311,7 +311,7 @@ class BisectionZD(Bisection1D):
 
         i = self.selection_key_outer
 
-        old_height = 99999
+        old_height = np.inf
 
         while i < len(self.coordinates_domain_nested) and i < max_iter:
 
-- 
2.43.0

