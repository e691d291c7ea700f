From ee91da4372851dff0acc36f33f5db8868e4bedec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 01/19] fix: treat a snowcover without depth as no snowcover

When one time step melts more than the whole depth, calc_layers kept the
negative depth (z_s and z_s_0 < 0 with a layer count of 0) and wrote it to
the output.
---
 pysnobal/point/snow_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysnobal/point/snow_state.py b/pysnobal/point/snow_state.py
index 0457169..b17f1be 100644
--- a/pysnobal/point/snow_state.py
+++ b/pysnobal/point/snow_state.py
@@ -268,8 +268,9 @@ class SnowState():
 
         """
 
-        if self.m_s <= self.small_threshold:
-            # less than minimum layer mass, so treat as no snowcover
+        if self.m_s <= self.small_threshold or self.z_s <= 0:
+            # less than minimum layer mass, or all of the depth has melted
+            # within the time step, so treat as no snowcover
             # can change to the set zeros
             z_s_0 = z_s_l = 0
 
-- 
2.43.0


From 3395d6e61480aae8b699cf03c80775042a08a782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 02/19] fix: do not overwrite the input vapor pressure when
 clipping it

h_le clipped input1.e_a in place. The per time step deltas are added to
that value, so the vapor pressure of every later sub time step was shifted
and could become negative, which aborts the run.
---
 pysnobal/point/snobal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index e0d93a5..0769b72 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -1048,12 +1048,13 @@ class Snobal(object):
 
         # error check for bad vapor pressures
         sat_vp = self.input1.sat_vp
+        e_a = self.input1.e_a
 
-        if self.input1.e_a > sat_vp:
+        if e_a > sat_vp:
             warnings.warn(
                 """{} h_le: input vapor pressure is greater than """
                 """saturation vapor pressure""".format(self.current_datetime))
-            self.input1.e_a = sat_vp
+            e_a = sat_vp
 
         # determine relative measurement heights
         if self.relative_hts:
@@ -1069,7 +1070,7 @@ class Snobal(object):
             self.input1.t_a,
             self.snow_state.t_s_0,
             rel_z_T,
-            self.input1.e_a,
+            e_a,
             self.snow_state.e_s_0,
             rel_z_T,
             self.input1.u,
-- 
2.43.0


From 06dbb22f418b755662d353878a3f2933ba59af73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 03/19] fix: hle1 raised UnboundLocalError under neutral
 stability

The iteration counter was only bound in the non-neutral branch.
---
 pysnobal/point/libsnobal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index 0942bd1..31e3bdb 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -257,6 +257,8 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
     dens = gas_density(press, MOL_AIR, virtual_temperature(
         math.sqrt(air_temp * surface_temp), math.sqrt(ea * es), press))
 
+    it = 0
+
     # if neutral stability ignore starting values and calculate
     if air_temp == surface_temp:
 
@@ -270,7 +272,6 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
     # if not neutral stability, iterate on Obukhov stability
     # length to find solution
     else:
-        # it = 0
         lo = 1e500
 
         # initialize ustar and factor
-- 
2.43.0


From 3e257cf5499891e409a39c90541cc634f8b11736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 04/19] fix: use the relative_heights option

The option was read from the config but Snobal always treated the
measurement heights as heights above the ground.
---
 pysnobal/point/snobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 0769b72..33fc07c 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -58,7 +58,7 @@ class Snobal(object):
 
         # get measurement-height record
         self.measurement_heights = meas_heights
-        self.relative_hts = False
+        self.relative_hts = params.get('relative_heights', False)
 
         self.time_since_out = 0
 
-- 
2.43.0


From a4bbd2f73cc0ecab7e0fc2c7cadf9e0e3c4a39c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 05/19] fix: sort the input data before taking its time step

The time step was the difference of the first two rows of the file, which
is wrong (e.g. negative) when the rows are not in time order.
---
 pysnobal/pysnobal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 0787d2b..7416b55 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -231,9 +231,10 @@ class PySnobal():
         input_data.index = input_data.index.tz_localize(
             self.config['time']['time_zone'])
 
+        input_data.sort_index(inplace=True)
+
         # get the time delta of the data
         tdelta = input_data.index.to_series().diff().dropna().unique()[0]
-        input_data.sort_index(inplace=True)
 
         # clip to the start and end date
         # Add one time step as each Snobal timestep requires two input
-- 
2.43.0


From 6681d0cc6637fcbf9568307914ef104ac1211cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 06/19] fix: convert the initial snow temperatures to Kelvin

t_s_0 and t_s are configured in Celcius but were used as Kelvin, and the
lower layer temperature was never set, so a run could not start with a
snowcover.
---
 pysnobal/pysnobal.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 7416b55..17b18b6 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -287,10 +287,17 @@ class PySnobal():
         input_data1 = InputData(input_data[self.input_data.index[0]])
         del input_data[self.input_data.index[0]]
 
+        # the initial snow temperatures are in Celcius. There is no lower
+        # layer temperature so use the average, like when a lower layer forms
+        snow_records = dict(self.config['initial_snow_properties'])
+        snow_records['t_s_0'] += FREEZE
+        snow_records['t_s'] += FREEZE
+        snow_records['t_s_l'] = snow_records['t_s']
+
         self.snobal = Snobal(
             self.params,
             self.tstep_info,
-            self.config['initial_snow_properties'],
+            snow_records,
             self.measurement_heights,
             self.output_mode
         )
-- 
2.43.0


From 1b0c2f3ce5bf21a3d696c8aa5a1f692bd1c3e42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 07/19] fix: raise on missing values in the input data

A NaN in the forcing data (blank cell, incomplete line) passed through the
energy balance and silently removed the whole snowcover.
---
 pysnobal/pysnobal.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 17b18b6..f146205 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -241,6 +241,8 @@ class PySnobal():
         # data classes
         input_data = input_data.loc[self.start_date:self.end_date + tdelta, :]
 
+        self.check_missing(input_data)
+
         # convert to Kelvin
         input_data.precip_temp += FREEZE
         input_data.air_temp += FREEZE
@@ -256,6 +258,29 @@ class PySnobal():
 
         self.map_input_data()
 
+    def check_missing(self, input_data):
+        """
+        Check that the input data has all the values that are needed. Missing
+        values would pass through all the calculations and silently remove
+        the snowcover.
+
+        Args:
+            input_data: dataframe of the input data
+        """
+
+        columns = ['net_solar', 'incoming_thermal', 'air_temp',
+                   'vapor_pressure', 'wind_speed', 'soil_temp',
+                   'precip_mass']
+        precip_columns = ['percent_snow', 'precip_temp']
+
+        missing = input_data[columns].isnull().any(axis=1)
+        missing |= (input_data.precip_mass > 0) & \
+            input_data[precip_columns].isnull().any(axis=1)
+
+        if missing.any():
+            raise ValueError('Missing values in the input data at {}'.format(
+                list(missing.index[missing])))
+
     def map_input_data(self):
         """
         Maps the input data from a dataframe to that needed by Snobal
-- 
2.43.0


From 01f3f77728ff3f75633ba70ff825d15a280fa11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 08/19] fix: do not change the caller's input record in
 do_data_tstep

---
 pysnobal/point/snobal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 33fc07c..bce2f07 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -1,5 +1,6 @@
 import math
 import warnings
+from copy import copy
 
 import numpy as np
 
@@ -118,8 +119,9 @@ class Snobal(object):
         # pd.to_datetime('1995-10-12 10:00:00-07:00'):
         #     self.current_datetime
 
-        # store the inputs for later
-        self.input1 = input1
+        # store the inputs for later, input1 is updated over the data timestep
+        # so use a copy to not change the values of the caller
+        self.input1 = copy(input1)
         self.input2 = input2
 
         # Compute deltas for the climate input parameters over the
-- 
2.43.0


From 0abdf30651323b5a3408602ef630c5db8f171fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 09/19] fix: a gap before the simulation period moved the end
 of the run

---
 pysnobal/pysnobal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index f146205..6ca5e31 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -233,8 +233,9 @@ class PySnobal():
 
         input_data.sort_index(inplace=True)
 
-        # get the time delta of the data
-        tdelta = input_data.index.to_series().diff().dropna().unique()[0]
+        # get the time delta of the data, the most common one as there can
+        # be gaps outside of the simulation period
+        tdelta = input_data.index.to_series().diff().mode()[0]
 
         # clip to the start and end date
         # Add one time step as each Snobal timestep requires two input
-- 
2.43.0


From dcbceb5a9ad69f61b49797b4a38f9cdc6efec381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:03 +0000
Subject: [PATCH 10/19] fix: no snow with negative mass when more than all ice
 melts or evaporates in a time step

With coarse time steps the runoff could take more mass than the snowcover
has, leaving a negative mass or more liquid than mass for one step.
---
 pysnobal/point/snobal.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index bce2f07..eb175a8 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -322,6 +322,13 @@ class Snobal(object):
             self.snow_state.swi = self.snow_state.h2o_total
             return
 
+        # If more than all of the ice has melted within the time step, then
+        # there is no snow left and all of its mass is runoff.
+        if self.snow_state.h2o_total >= self.snow_state.m_s:
+            self.snow_state.swi = self.snow_state.m_s
+            self.adj_snow(-self.snow_state.z_s, -self.snow_state.m_s)
+            return
+
         # Determine the snow density without any water, and the maximum
         # liquid water the snow can hold.
         m_s_dry = self.snow_state.m_s - self.snow_state.h2o_total
@@ -665,6 +672,13 @@ class Snobal(object):
         self.snow_state.z_s += delta_z_s
         self.snow_state.m_s += delta_m_s
 
+        # No snow is left when all the mass is lost, like when more evaporates
+        # within the time step than there is snow.
+        if self.snow_state.m_s <= 0:
+            self.snow_state.z_s = 0
+            self.adj_layers()
+            return
+
         if self.snow_state.z_s != 0.0:
             self.snow_state.rho = self.snow_state.m_s / self.snow_state.z_s
         else:
-- 
2.43.0


From e8546441122cd63f60c8530e2f36c2cc5cf5d336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 11/19] fix: refuse forcing rows without a date_time

A row with an empty date_time became a NaT in the index and was silently
dropped, every later record then moved up by one time step.
---
 pysnobal/pysnobal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 6ca5e31..939d4e5 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -228,6 +228,10 @@ class PySnobal():
             index_col='date_time',
             parse_dates=True)
 
+        # a row without a time can not be placed in the simulation
+        if input_data.index.isnull().any():
+            raise ValueError('Input data has rows without a date_time')
+
         input_data.index = input_data.index.tz_localize(
             self.config['time']['time_zone'])
 
-- 
2.43.0


From d17572109f99b1b3e3b09372d7aa9ad37ecda27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:47 +0000
Subject: [PATCH 12/19] fix: refuse time steps that do not divide evenly

The documentation requires it, but the number of sub-steps was silently
truncated and part of every divided interval was left out.
---
 pysnobal/pysnobal.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 939d4e5..7ba1882 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -124,6 +124,15 @@ class PySnobal():
             self.config['model']['small_time_step'],
         ]
 
+        # finer steps that do not fill a coarser one would leave a part of the
+        # data interval out of the simulation
+        for coarse, fine in ((NORMAL_TSTEP, MEDIUM_TSTEP),
+                             (MEDIUM_TSTEP, SMALL_TSTEP)):
+            if time_step[coarse] % time_step[fine] != 0:
+                raise ValueError(
+                    'The time step of {} min must divide {} min evenly'.format(
+                        time_step[fine], time_step[coarse]))
+
         tstep_info = []
         config_names = ['norm', 'medium', 'small']
         for i in range(3):
-- 
2.43.0


From 4ba02d8618a9e04e9c6ebfda45662a5470d927c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:57 +0000
Subject: [PATCH 13/19] fix: no more than all of the snow can evaporate

With a strong turbulent exchange (or coarse time steps) more evaporation
was reported than there was snow, and its liquid water stayed behind.
---
 pysnobal/point/snobal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index eb175a8..33b0989 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -489,6 +489,11 @@ class Snobal(object):
 
         self.snow_state.E_s = E_s_0 + E_s_l
 
+        # No more than all of the snow can evaporate
+        if self.snow_state.E_s <= -self.snow_state.m_s:
+            self.snow_state.E_s = -self.snow_state.m_s
+            self.snow_state.h2o_total = 0.0
+
         # adj mass and depth for evap/cond
         if self.snow_state.snowcover:
             delta_z = ((self.snow_state.E_s + prev_h2o_tot -
-- 
2.43.0


From 2e5acd5d6c2f300f720805f320070866af612c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:10 +0000
Subject: [PATCH 14/19] fix: no undefined saturation of snow that can not hold
 any water

---
 pysnobal/point/snobal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 33b0989..ebc1032 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -350,8 +350,12 @@ class Snobal(object):
         else:
             self.snow_state.swi = 0.0
             self.snow_state.h2o = self.snow_state.h2o_total
-            self.snow_state.h2o_sat = self.snow_state.h2o / \
-                self.snow_state.h2o_max
+            # snow that can not hold any water (max_h2o of 0) is not saturated
+            if self.snow_state.h2o_max > 0.0:
+                self.snow_state.h2o_sat = self.snow_state.h2o / \
+                    self.snow_state.h2o_max
+            else:
+                self.snow_state.h2o_sat = 0.0
             self.snow_state.h2o_vol = self.snow_state.h2o_sat * \
                 self.snow_state.max_h2o_vol
 
-- 
2.43.0


From 62b9e1aa65f12af366529e78f4a8731ea0cb2719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:39 +0000
Subject: [PATCH 15/19] fix: extra columns of the input data replaced forcing
 of the same internal name

---
 pysnobal/pysnobal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 7ba1882..90dd225 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -313,7 +313,8 @@ class PySnobal():
             'precip_temp': 't_pp'
         }
 
-        self.input_data = self.input_data.rename(columns=mapper)
+        # other columns may have the name of one of the mapped columns
+        self.input_data = self.input_data[list(mapper)].rename(columns=mapper)
 
     def run(self):
         """
-- 
2.43.0


From 22ba8506bdb8d0ce9ef48461f6039c16590693aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:39 +0000
Subject: [PATCH 16/19] fix: refuse forcing that does not cover the period or
 is not one time step apart

---
 pysnobal/pysnobal.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 90dd225..5e19223 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -272,6 +272,29 @@ class PySnobal():
 
         self.map_input_data()
 
+        self.check_period()
+
+    def check_period(self):
+        """
+        Check that the input data has a record at every normal time step of
+        the simulation period. The model time advances one normal time step
+        with each record, whatever the time of the record.
+        """
+
+        date_time = self.input_data.index
+        step = self.tstep_info[NORMAL_TSTEP]['time_step_timedelta']
+
+        if date_time.empty or date_time[0] != self.start_date or \
+                date_time[-1] < self.end_date:
+            raise ValueError(
+                'Input data does not cover the simulation period')
+
+        irregular = date_time[1:] - date_time[:-1] != step
+        if irregular.any():
+            raise ValueError(
+                'Input data is not one time step of {} apart at {}'.format(
+                    step, list(date_time[1:][irregular])))
+
     def check_missing(self, input_data):
         """
         Check that the input data has all the values that are needed. Missing
-- 
2.43.0


From 7c46d5f03462daba1d157292cfad0c9f9787d959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:39 +0000
Subject: [PATCH 17/19] fix: refuse infinite values in the input data

---
 pysnobal/pysnobal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 5e19223..ce00adb 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -298,8 +298,8 @@ class PySnobal():
     def check_missing(self, input_data):
         """
         Check that the input data has all the values that are needed. Missing
-        values would pass through all the calculations and silently remove
-        the snowcover.
+        or infinite values would pass through all the calculations and
+        silently remove the snowcover.
 
         Args:
             input_data: dataframe of the input data
@@ -310,9 +310,11 @@ class PySnobal():
                    'precip_mass']
         precip_columns = ['percent_snow', 'precip_temp']
 
-        missing = input_data[columns].isnull().any(axis=1)
+        missing = ~np.isfinite(input_data[columns]).all(axis=1)
         missing |= (input_data.precip_mass > 0) & \
-            input_data[precip_columns].isnull().any(axis=1)
+            ~np.isfinite(input_data[precip_columns]).all(axis=1)
+        missing |= (input_data.precip_mass > 0) & \
+            np.isinf(input_data.rho_snow)
 
         if missing.any():
             raise ValueError('Missing values in the input data at {}'.format(
-- 
2.43.0


From 8f9c04e4a665a4afaa2ee19177dc505750185e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:28 +0000
Subject: [PATCH 18/19] fix: exit with a failure status when the config file
 has errors

---
 pysnobal/pysnobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index ce00adb..ab84dc6 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -76,7 +76,7 @@ class PySnobal():
         if len(errors) > 0:
             print("Errors in the config file. See configuration"
                   " status report above.")
-            sys.exit()
+            sys.exit(1)
 
     def parse_time_steps(self):
         """
-- 
2.43.0


From a9e4de100a18a27b8b5b4a7e9e5868ca1df00331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:28 +0000
Subject: [PATCH 19/19] fix: refuse time steps that are not positive

---
 pysnobal/pysnobal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index ab84dc6..86dcfb5 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -124,6 +124,9 @@ class PySnobal():
             self.config['model']['small_time_step'],
         ]
 
+        if min(time_step) <= 0:
+            raise ValueError('The time steps must be positive')
+
         # finer steps that do not fill a coarser one would leave a part of the
         # data interval out of the simulation
         for coarse, fine in ((NORMAL_TSTEP, MEDIUM_TSTEP),
-- 
2.43.0

