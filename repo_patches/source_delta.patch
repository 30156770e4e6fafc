From c2c03280eaa7a79dc8800739fe79f415d944fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 01/13] fix: slant range of every satellite and batch example
 from its own height

The height of the first batch example was used for all of them, and more than
one satellite made tf.fill fail.
---
 OpenNTN/system_level_scenario.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 7f65ec0..15c1729 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -807,17 +807,12 @@ class SystemLevelScenario(Object):
         #Radius of the Earth
         R_E = 6371000
  
-        #satellite height 
-        height_val = self._bs_loc[:,:,2][0]
+        #height of each satellite, [batch size, number of BSs, 1]
+        height_val = self._bs_loc[:,:,2:]
         #Calculating the 3d distance based on 3GPP TR38.811 6.6-3 to consider the Earth's curveture
-        distance_3d = (tf.sqrt(R_E**2 * tf.math.sin(elevation_angle)**2 + height_val**2 + 2*height_val*R_E) - R_E*tf.math.sin(elevation_angle))
-        #Expanding to correct shape
-        # TODO there is a sometimes occuring bug at this point. The squeeze assumes there to be more than one user, which can run into issues. However,
-        # this bug is not yet fully understood and seems to be limited to eager executions. For the future this needs to be fixed. This bug is also assumed
-        # to cause the infinite GPU memory allocation in eager execution during the use of the LMMSEEqualizer. 
-        # Additionally, tf.squeeze is used here, as distance_3d needs to be a tf.constant, but casting that directly lead to bugs. This workaround works well,
-        # but should be replaced by a more straightforward solution in the future.
-        distance_3d = tf.fill([self.batch_size, self.num_bs, self.num_ut], tf.squeeze(distance_3d))
+        distance_3d = (tf.sqrt(R_E**2 * math.sin(elevation_angle)**2 + height_val**2 + 2*height_val*R_E) - R_E*math.sin(elevation_angle))
+        #All users see a satellite under the same elevation angle and thus at the same distance
+        distance_3d = tf.broadcast_to(distance_3d, [self.batch_size, self.num_bs, self.num_ut])
         self._distance_3d = distance_3d
 
         # LoS AoA, AoD, ZoA, ZoD
-- 
2.43.0


From 930a5aeb112fe5eb18b294cbcc0083caebbc4b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:41 +0000
Subject: [PATCH 02/13] fix: double precision runs in every configuration

Tensors created without the model's precision made precision='double' fail
with a dtype error in every scenario.
---
 OpenNTN/antenna.py              |  6 ++---
 OpenNTN/channel_coefficients.py | 10 ++++----
 OpenNTN/dense_urban_scenario.py |  2 +-
 OpenNTN/sub_urban_scenario.py   |  2 +-
 OpenNTN/urban_scenario.py       |  2 +-
 OpenNTN/utils.py                | 45 +++++++++++++++++----------------
 6 files changed, 34 insertions(+), 33 deletions(-)

diff --git a/OpenNTN/antenna.py b/OpenNTN/antenna.py
index 39783ab..fc4acf4 100644
--- a/OpenNTN/antenna.py
+++ b/OpenNTN/antenna.py
@@ -109,7 +109,7 @@ class AntennaElement(Object):
         # As the aperture pattern scales differently, the amplitude is transformed into the log domain 
         if self._pattern == "aperture":
             a = 50+tf.math.log(a,10)
-            a = tf.where(a > 0, a, tf.cast(0.0, tf.float32))
+            a = tf.where(a > 0, a, tf.cast(0.0, a.dtype))
             
         x = a * sin(theta_grid) * cos(phi_grid)
         y = a * sin(theta_grid) * sin(phi_grid)
@@ -187,8 +187,8 @@ class AntennaElement(Object):
 
         ka = a * 2 * math.pi
         r = tf.acos(tf.sin(theta) * tf.cos(phi))
-        amplitude = tf.where(0.0 == r, tf.cast(1.0, tf.float32), 4 * tf.abs(tf.math.special.bessel_j1(tf.sin(r)*ka) / (ka * tf.sin(r))) ** 2)
-        return tf.where(tf.abs(r) > 0.5*math.pi, tf.cast(0.0, tf.float32), amplitude)
+        amplitude = tf.where(0.0 == r, tf.cast(1.0, r.dtype), 4 * tf.abs(tf.math.special.bessel_j1(tf.sin(r)*ka) / (ka * tf.sin(r))) ** 2)
+        return tf.where(tf.abs(r) > 0.5*math.pi, tf.cast(0.0, r.dtype), amplitude)
 
     def _radiation_pattern_co_phased_DLp(self, theta, phi):
         """
diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index c7813c2..0a25db0 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -97,9 +97,9 @@ class Topology(Object):
         # self.sat_speed = None
         # if tf.reduce_any(tf.greater_equal(bs_height, 600000.0)):
         sat_speed = compute_satellite_speed(bs_height)
-        max_sat_speed_for_elevation_angle = tf.math.cos(elevation_angle * (PI/180.0)) * sat_speed
+        max_sat_speed_for_elevation_angle = tf.math.cos(tf.cast(elevation_angle, los_aoa.dtype) * (PI/180.0)) * sat_speed
         batch_size = tf.shape(los_aoa)[0]
-        random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size])
+        random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size], dtype=los_aoa.dtype)
         self.sat_speed = tf.math.cos(random_direction_per_batch) * max_sat_speed_for_elevation_angle
 
 
@@ -1111,9 +1111,9 @@ class ChannelCoefficientsGenerator(Object):
         # TODO there is a bug report here,  appearently passing a Tensor to a NumPy call, which is not supported. Assumably psi in the functions is the issue,
         # but the bug could not yet be replicated. This comment serves as a reminder in case of future resurgence of the issue
         psi_in_rad = psi_in_deg * (PI/180.0)
-        faraday_cos = tf.fill(dims=aod_shape, value=tf.complex(tf.math.cos(psi_in_rad), 0.0))
-        faraday_sin = tf.fill(dims=aod_shape, value=tf.complex(tf.math.sin(psi_in_rad), 0.0))
-        faraday_minus_sin = tf.fill(dims=aod_shape, value=tf.complex(-tf.math.sin(psi_in_rad), 0.0))
+        faraday_cos = tf.fill(dims=aod_shape, value=tf.complex(tf.math.cos(psi_in_rad), tf.constant(0., self.rdtype)))
+        faraday_sin = tf.fill(dims=aod_shape, value=tf.complex(tf.math.sin(psi_in_rad), tf.constant(0., self.rdtype)))
+        faraday_minus_sin = tf.fill(dims=aod_shape, value=tf.complex(-tf.math.sin(psi_in_rad), tf.constant(0., self.rdtype)))
         shape = tf.concat([tf.shape(faraday_cos), [2,2]], axis=-1)
         faraday_phase_rot = tf.reshape(tf.stack([faraday_cos, faraday_minus_sin, faraday_sin, faraday_cos], axis=-1), shape)
         return faraday_phase_rot
diff --git a/OpenNTN/dense_urban_scenario.py b/OpenNTN/dense_urban_scenario.py
index acf1214..6bb7421 100644
--- a/OpenNTN/dense_urban_scenario.py
+++ b/OpenNTN/dense_urban_scenario.py
@@ -130,7 +130,7 @@ class DenseUrbanScenario(SystemLevelScenario):
         angle_str = str(round(self._elevation_angle/10.0)*10)
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype=self.rdtype) + los_p
 
         return los_probability
 
diff --git a/OpenNTN/sub_urban_scenario.py b/OpenNTN/sub_urban_scenario.py
index b476708..74996a3 100644
--- a/OpenNTN/sub_urban_scenario.py
+++ b/OpenNTN/sub_urban_scenario.py
@@ -132,7 +132,7 @@ class SubUrbanScenario(SystemLevelScenario):
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
         #los_probability = tf.zeros(shape=self._distance_2d_out.shape) + los_p
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype=self.rdtype) + los_p
         return los_probability
 
     @property
diff --git a/OpenNTN/urban_scenario.py b/OpenNTN/urban_scenario.py
index c8e9cdc..7b24911 100644
--- a/OpenNTN/urban_scenario.py
+++ b/OpenNTN/urban_scenario.py
@@ -131,7 +131,7 @@ class UrbanScenario(SystemLevelScenario):
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
         #los_probability = tf.zeros(shape=self._distance_2d_out.shape) + los_p
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype=self.rdtype) + los_p
         
         return los_probability
 
diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index eaaf500..e6ce962 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -582,9 +582,10 @@ def drop_uts_in_sector(batch_size, num_ut, bs_height, elevation_angle, isd,
     # the center with some random variation based on the isd
 
     
-    actual_bs_ut_distance = tf.cast(bs_height, rdtype) / tf.cast(tf.math.sin(deg_2_rad(tf.cast(elevation_angle,rdtype))),rdtype)
+    bs_height = tf.cast(bs_height, rdtype)
+    actual_bs_ut_distance = bs_height / tf.cast(tf.math.sin(deg_2_rad(tf.cast(elevation_angle,rdtype))),rdtype)
     distance_center_to_ut = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height))
-    x_base = tf.random.uniform(shape = [1], minval=0,maxval=distance_center_to_ut)
+    x_base = tf.random.uniform(shape = [1], minval=0,maxval=distance_center_to_ut, dtype=rdtype)
     y_base = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height) - tf.math.square(x_base))
 
     # Randomly assign the UTs to one of the two half of the sector
@@ -979,8 +980,8 @@ def generate_uts_topology(  batch_size,
                                 axis=-1)
 
     
-    ut_downtilt = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
-    ut_slant = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
+    ut_downtilt = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
+    ut_slant = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
     #Always point at the BS, which is at [0,0,bs_height]
     ut_bearing = tf.math.atan(ut_loc_xy[:,:,1]/ut_loc_xy[:,:,0])
     ut_orientations = tf.stack([ut_bearing, ut_downtilt, ut_slant], axis=-1)
@@ -1161,7 +1162,7 @@ def gen_single_sector_topology( batch_size,
     # Setting BS to (0,0,bs_height)
     bs_loc = tf.stack([ tf.zeros([batch_size, 1], rdtype),
                         tf.zeros([batch_size, 1], rdtype),
-                        tf.fill( [batch_size, 1], bs_height)], axis=-1)
+                        tf.fill( [batch_size, 1], tf.cast(bs_height, rdtype))], axis=-1)
 
     # BS always faces exactly down in simulations
     bs_yaw = tf.constant(0.0, rdtype)
@@ -1368,7 +1369,7 @@ def gen_single_sector_topology_interferers( batch_size,
     # Setting BS to (0,0,bs_height)
     bs_loc = tf.stack([ tf.zeros([batch_size, 1], rdtype),
                         tf.zeros([batch_size, 1], rdtype),
-                        tf.fill( [batch_size, 1], bs_height)], axis=-1)
+                        tf.fill( [batch_size, 1], tf.cast(bs_height, rdtype))], axis=-1)
 
     # Setting the BS orientation such that it is downtilted towards the center
     # of the sector
@@ -1600,8 +1601,8 @@ def compute_pathloss_gas(self):
         """
 
         # Constants set during scenario creation 
-        T=self._temperature
-        p=self._atmospheric_pressure
+        T=tf.cast(self._temperature, self.rdtype)
+        p=tf.cast(self._atmospheric_pressure, self.rdtype)
 
         f = self._carrier_frequency/(10.0**9.0)
         pw=self._water_vapor_density#water vapor density
@@ -1639,11 +1640,11 @@ def compute_pathloss_gas(self):
         ee6=(rp**0.2445)*(rt**(-5.9191))*tf.math.exp((0.0422*(1-rp))+(-8.0719*(1-rt)))
         ee7=(rp**(-0.1833))*(rt**(6.5589))*tf.math.exp((-0.2402*(1-rp))+(6.131*(1-rt)))
 
-        g54 = 2.136 * rp**1.4975 * rt**(-1.5852) * math.exp((-2.5196)*(1-rt))
-        g57 = 9.984 * rp**0.9313 * rt**(2.6732) * math.exp((0.8563)*(1-rt))
-        g60 = 15.42 * rp**0.8595 * rt**(3.6178) * math.exp((1.1521)*(1-rt))
-        g63 = 10.63 * rp**0.9298 * rt**(2.3284) * math.exp((0.6287)*(1-rt))
-        g66 = 1.944 * rp**1.6657 * rt**(-3.3714) * math.exp((-4.1643)*(1-rt))
+        g54 = 2.136 * rp**1.4975 * rt**(-1.5852) * tf.math.exp((-2.5196)*(1-rt))
+        g57 = 9.984 * rp**0.9313 * rt**(2.6732) * tf.math.exp((0.8563)*(1-rt))
+        g60 = 15.42 * rp**0.8595 * rt**(3.6178) * tf.math.exp((1.1521)*(1-rt))
+        g63 = 10.63 * rp**0.9298 * rt**(2.3284) * tf.math.exp((0.6287)*(1-rt))
+        g66 = 1.944 * rp**1.6657 * rt**(-3.3714) * tf.math.exp((-4.1643)*(1-rt))
 
         
         # Calculation of the dry air specific attenuation 
@@ -1684,10 +1685,10 @@ def compute_pathloss_gas(self):
             
         # Calculate the total gases attenuation for the given elevation
         Elev = self._elevation_angle
-        Atotx = (Ao + Aw) / tf.math.sin(math.radians(Elev))
+        Atotx = (Ao + Aw) / math.sin(math.radians(Elev))
         GasAtt = abs(Atotx)
 
-        pl_g = tf.zeros(shape = tf.shape(self.los)) + GasAtt
+        pl_g = tf.zeros(shape = tf.shape(self.los), dtype=self.rdtype) + GasAtt
 
         self._pl_g = pl_g
             
@@ -1717,7 +1718,7 @@ def compute_pathloss_scintilation(self):
             #  Calculate the effective path length
             hL = 1000 # Height of turbulent layer in meters
             Elev = self._elevation_angle
-            L = (2 * hL) / (tf.math.sqrt(tf.math.sin(math.radians(Elev))**2 + 2.35e-4 + tf.math.sin(math.radians(Elev))))
+            L = (2 * hL) / (math.sqrt(math.sin(math.radians(Elev))**2 + 2.35e-4 + math.sin(math.radians(Elev))))
                 
             # Step 5: Calculate the effective antenna diameter
             D = self._diameter_earth_antenna # antenna diameter in meters
@@ -1738,7 +1739,7 @@ def compute_pathloss_scintilation(self):
             TroScin = a_p * g_x
 
             TScin=abs(TroScin)
-            pl_s = tf.zeros(shape = tf.shape(self.los)) + TScin
+            pl_s = tf.zeros(shape = tf.shape(self.los), dtype=self.rdtype) + TScin
             self._pl_s = pl_s
             
         #For carrier frequencies below 6GHz we only consider Ionospheric scintillation    
@@ -1751,14 +1752,14 @@ def compute_pathloss_scintilation(self):
             #Scale scintillation pathloss at 4GHz to used carrier frequency by applying 3GPP TR38.811 6.6-12
             AIs = Pluc_4GHz * (f/4)**(n)
             #Get final loss by dividing by sqrt(2) according to 3GPP TR38.811 6.6-13
-            pl_s = tf.zeros(shape = tf.shape(self.los)) + (AIs/math.sqrt(2.0))
+            pl_s = tf.zeros(shape = tf.shape(self.los), dtype=self.rdtype) + (AIs/math.sqrt(2.0))
             self._pl_s = pl_s
         
 
 
 def compute_pathloss_entry(self):
         #Currently only 0, as no HAPS are considered an thus no building cases
-        pl_e = tf.zeros(shape = tf.shape(self.los))
+        pl_e = tf.zeros(shape = tf.shape(self.los), dtype=self.rdtype)
         self._pl_e = pl_e
         #ntnu.compute_pathloss_gas(self)
 
@@ -1774,8 +1775,8 @@ def compute_pathloss_basic(self):
         sigmaSF_los = self._params_los["sigmaSF" + '_' + angle_str]
         sigmaSF_nlos = self._params_nlos["sigmaSF" + '_' + angle_str]
 
-        SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los)
-        SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos)
+        SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los, dtype=self.rdtype)
+        SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos, dtype=self.rdtype)
 
         pl_los = fspl + SF_los
         pl_nlos = fspl + SF_nlos + cl
@@ -1947,7 +1948,7 @@ def compute_pathloss_additional(self):
 
         total_att = Ratt + CAtten
 
-        pl_a = tf.zeros(shape = tf.shape(self.los)) + total_att
+        pl_a = tf.zeros(shape = tf.shape(self.los), dtype=self.rdtype) + tf.cast(total_att, self.rdtype)
 
         self._pl_a = pl_a
 
-- 
2.43.0


From 4b0a7ede02156b389686a25aa598bf6265f5128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:41 +0000
Subject: [PATCH 03/13] fix: dual VH polarization of a panel uses slants 0 and
 90 degrees

The test compared polarization ('dual') instead of polarization_type with
'VH', so a VH panel silently became a cross-polarized one.
---
 OpenNTN/antenna.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/antenna.py b/OpenNTN/antenna.py
index fc4acf4..4d8914c 100644
--- a/OpenNTN/antenna.py
+++ b/OpenNTN/antenna.py
@@ -524,7 +524,7 @@ class PanelArray(Object):
         else:
             assert polarization_type in ["VH", "cross"],\
             "For dual polarization, polarization_type must be 'VH' or 'cross'"
-            slant_angle = 0 if polarization == "VH" else -PI/4
+            slant_angle = 0 if polarization_type == "VH" else -PI/4
             self._ant_pol1 = AntennaElement(antenna_pattern, slant_angle,
                 self.precision)
             self._ant_pol2 = AntennaElement(antenna_pattern, slant_angle+PI/2,
-- 
2.43.0


From 1809cff2e3ba4d11760556aed7c4a42075e54b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:41 +0000
Subject: [PATCH 04/13] fix: ray offset angle -1.1481 (table 7.5-3 of TR
 38.901)

---
 OpenNTN/rays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/rays.py b/OpenNTN/rays.py
index 507b1ca..aab9000 100644
--- a/OpenNTN/rays.py
+++ b/OpenNTN/rays.py
@@ -107,7 +107,7 @@ class RaysGenerator(Object):
                                          0.5129, -0.5129,
                                          0.6797, -0.6797,
                                          0.8844, -0.8844,
-                                         1.1481, -0.1481,
+                                         1.1481, -1.1481,
                                          1.5195, -1.5195,
                                          2.1551, -2.1551],
                                          self.rdtype)
-- 
2.43.0


From 2d1717a869949ef5bcf6a29428a74d7cdf2e384d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:26 +0000
Subject: [PATCH 05/13] fix: zenith angle of arrival of the LoS path points to
 the transmitter

ZoD-pi wraps to 360-ZoA; together with AoA=AoD+pi the unit vector of the
LoS arrival direction had its horizontal part reversed.
---
 OpenNTN/system_level_scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 15c1729..d20857b 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -819,7 +819,7 @@ class SystemLevelScenario(Object):
         los_aod = tf.atan2(delta_loc[:,:,:,1], delta_loc[:,:,:,0])
         los_aoa = los_aod + PI
         los_zod = tf.atan2(distance_2d, delta_loc[:,:,:,2])
-        los_zoa = los_zod - PI
+        los_zoa = PI - los_zod
         # Angles are converted to degrees and wrapped to (0,360)
         self._los_aod = wrap_angle_0_360(rad_2_deg(los_aod))
         self._los_aoa = wrap_angle_0_360(rad_2_deg(los_aoa))
-- 
2.43.0


From 596106f5344a1b0843b235178e4816211c38a388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:57 +0000
Subject: [PATCH 06/13] fix: set_topology keeps earlier weather and antenna
 parameters

Parameters that were not specified were reset to the standard values, while
the documentation promises to reuse the previous ones, and a change of only
these parameters did not update the losses.
---
 OpenNTN/system_level_scenario.py | 39 ++++++++++++++++----------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index d20857b..bc6468f 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -122,6 +122,17 @@ class SystemLevelScenario(Object):
         self._in_state = None
         self._requested_los = None
 
+        # Standard values, used until specified by set_topology()
+        self._latitude = 47
+        self._lwc = 0.41
+        self._rain_rate = 40
+        self._atmospheric_pressure = 1020
+        self._temperature = 273
+        self._water_vapor_density = 7.5
+        self._relative_humidity = 50
+        self._diameter_earth_antenna = 3.6
+        self._antenna_efficiency = 0.5
+
         # Load parameters for this scenario
         self._load_params()
 
@@ -569,51 +580,41 @@ class SystemLevelScenario(Object):
         # state of UTs, or LoS/NLoS states of outdoor UTs are updated.
         need_for_update = False
 
-        #Setting values to standard values if not further specified
         if latitude is not None:
             self._latitude = latitude
-        else:
-            self._latitude = 47
+            need_for_update = True
 
         if lwc is not None:
             self._lwc = lwc
-        else:
-            self._lwc = 0.41
+            need_for_update = True
 
         if rain_rate is not None:
             self._rain_rate = rain_rate
-        else:
-            self._rain_rate = 40
+            need_for_update = True
 
         if atmospheric_pressure is not None:
             self._atmospheric_pressure = atmospheric_pressure
-        else:
-            self._atmospheric_pressure = 1020
+            need_for_update = True
 
         if temperature is not None:
             self._temperature = temperature
-        else:
-            self._temperature = 273
+            need_for_update = True
 
         if water_vapor_density is not None:
             self._water_vapor_density = water_vapor_density
-        else:
-            self._water_vapor_density = 7.5
+            need_for_update = True
 
         if relative_humidity is not None:
             self._relative_humidity = relative_humidity
-        else:
-            self._relative_humidity = 50
+            need_for_update = True
 
         if diameter_earth_antenna is not None:
             self._diameter_earth_antenna = diameter_earth_antenna
-        else:
-            self._diameter_earth_antenna = 3.6
+            need_for_update = True
 
         if antenna_efficiency is not None:
             self._antenna_efficiency = antenna_efficiency
-        else:
-            self._antenna_efficiency = 0.5
+            need_for_update = True
 
         if ut_loc is not None:
             self._ut_loc = ut_loc
-- 
2.43.0


From 141fbeef36135de728ea10df88dc1a085a0ad4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:39 +0000
Subject: [PATCH 07/13] fix: satellite Doppler and Faraday rotation with
 several satellites or heights

Only the heights of the first batch example were used for all examples, and
more than one satellite raised an exception.
---
 OpenNTN/channel_coefficients.py | 30 ++++++++++++++++--------------
 OpenNTN/system_level_channel.py |  2 +-
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index 0a25db0..4febb44 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -98,9 +98,11 @@ class Topology(Object):
         # if tf.reduce_any(tf.greater_equal(bs_height, 600000.0)):
         sat_speed = compute_satellite_speed(bs_height)
         max_sat_speed_for_elevation_angle = tf.math.cos(tf.cast(elevation_angle, los_aoa.dtype) * (PI/180.0)) * sat_speed
+        # Speed of each satellite, [batch size, number of BSs]
         batch_size = tf.shape(los_aoa)[0]
-        random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size], dtype=los_aoa.dtype)
-        self.sat_speed = tf.math.cos(random_direction_per_batch) * max_sat_speed_for_elevation_angle
+        num_bs = tf.shape(bs_height)[-1]
+        random_direction = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size, num_bs], dtype=los_aoa.dtype)
+        self.sat_speed = tf.math.cos(random_direction) * max_sat_speed_for_elevation_angle
 
 
 class ChannelCoefficientsGenerator(Object):
@@ -606,23 +608,23 @@ class ChannelCoefficientsGenerator(Object):
         exponent = 2*PI/lambda_0*tf.reduce_sum(r_hat_ut*v_uts_bar, -2)*t
 
         # Check if a satellite is used (height of satellite is at least 600km). This is done to potentially incorporate HAPS later
-        if tf.logical_and(tf.less_equal(600000.0, topology.bs_height), topology.doppler_enabled):
+        if tf.logical_and(tf.reduce_all(tf.less_equal(600000.0, topology.bs_height)), topology.doppler_enabled):
             # We get the maximum speed of the satellite based on its orbit and the users elevation angle. This value is multiplied with a random constant between [cos(0),cos(2pi))
             # to simulate the random direction of the orbit in relation to the users. 
             max_sat_speed_for_elevation_angle = topology.sat_speed
             # The Doppler shift induced phase shift between each time step
             max_rotation_per_time = (2.0*PI/lambda_0)*max_sat_speed_for_elevation_angle
 
-            # Multiply the time with the shift per time to create the shift on each time symbol for each batch
-            # [batch size, num time steps]
-            rotation_for_time = tf.matmul(tf.expand_dims(max_rotation_per_time,axis=1), tf.expand_dims(t,axis=0))
+            # Multiply the time with the shift per time to create the shift on each time symbol for each satellite
+            # [batch size, num_bs, num time steps]
+            rotation_for_time = tf.expand_dims(max_rotation_per_time, -1)*t
 
-            # As the time shift is the same within each batch, we expand the calculations per batch in the desired shape
-            # to get shape [batch size, num_tx, num rx, num clusters, num rays, num time steps]
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
+            # The UT is the moving end, the satellites are at the other end of the link. As the time shift is the same for all
+            # links of a satellite, we expand it to shape [batch size, num_tx, num rx, num clusters, num rays, num time steps]
+            axis = 2 if topology.moving_end == 'rx' else 1
+            rotation_for_time = tf.expand_dims(rotation_for_time, axis)
+            rotation_for_time = tf.expand_dims(rotation_for_time, 3)
+            rotation_for_time = tf.expand_dims(rotation_for_time, 4)
 
             rotation_for_time = tf.broadcast_to(rotation_for_time, tf.shape(exponent))
             # Add the Doppler exponent to the standard exponent based on 3GPP TR38.811 section 6.8.1
@@ -872,7 +874,7 @@ class ChannelCoefficientsGenerator(Object):
         h_phase = self._step_11_phase_matrix(phi, rays)
 
         # Add Faraday phase rotation in NTN case
-        if tf.greater_equal(topology.bs_height, 600000.0):            
+        if tf.reduce_all(tf.greater_equal(topology.bs_height, 600000.0)):            
             rays_shape = tf.shape(rays.aoa)
             faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
             h_phase = tf.matmul(h_phase,faraday_phase_rotation)
@@ -1020,7 +1022,7 @@ class ChannelCoefficientsGenerator(Object):
                                          [1,1,1,1,1,2,2])
         
         # Add Faraday phase rotation in NTN case
-        if tf.greater_equal(topology.bs_height, 600000.0):
+        if tf.reduce_all(tf.greater_equal(topology.bs_height, 600000.0)):
 
             rays_shape = tf.shape(aoa)
             faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
diff --git a/OpenNTN/system_level_channel.py b/OpenNTN/system_level_channel.py
index 7e0cad6..91ca5fb 100644
--- a/OpenNTN/system_level_channel.py
+++ b/OpenNTN/system_level_channel.py
@@ -209,7 +209,7 @@ class SystemLevelChannel(ChannelModel):
                                 distance_3d=self._scenario.distance_3d,
                                 tx_orientations=tx_orientations,
                                 rx_orientations=rx_orientations,
-                                bs_height = self._scenario._bs_loc[:,:,2][0],
+                                bs_height = self._scenario._bs_loc[:,:,2],
                                 elevation_angle = self._scenario.elevation_angle,
                                 doppler_enabled = self._scenario.doppler_enabled
                                 )
-- 
2.43.0


From 5d42dab0135950bd544dfb859aa6935a9e951557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:31 +0000
Subject: [PATCH 08/13] fix: path length through the turbulent layer in the
 scintillation loss

ITU-R P.618 (43): L = 2 hL / (sqrt(sin^2 + 2.35e-4) + sin); the sine was inside the root.
---
 OpenNTN/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index e6ce962..296c2bf 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1718,7 +1718,7 @@ def compute_pathloss_scintilation(self):
             #  Calculate the effective path length
             hL = 1000 # Height of turbulent layer in meters
             Elev = self._elevation_angle
-            L = (2 * hL) / (math.sqrt(math.sin(math.radians(Elev))**2 + 2.35e-4 + math.sin(math.radians(Elev))))
+            L = (2 * hL) / (math.sqrt(math.sin(math.radians(Elev))**2 + 2.35e-4) + math.sin(math.radians(Elev)))
                 
             # Step 5: Calculate the effective antenna diameter
             D = self._diameter_earth_antenna # antenna diameter in meters
-- 
2.43.0


From 3ff1a089719e6a76b03bd8a853f64eed1c0378fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:27 +0000
Subject: [PATCH 09/13] fix: no NaN scintillation loss for large antennas

The argument of the root in ITU-R P.618 (44) is negative for x >= 7; the fade depth is then zero.
---
 OpenNTN/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index 296c2bf..0314c3a 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1727,7 +1727,8 @@ def compute_pathloss_scintilation(self):
             # Step 6: Calculate the antenna averaging factor
 
             x = (1.22 * Deff**2 * f) / L
-            g = tf.math.sqrt(3.86 * (x**2 + 1)**(11/12) * tf.math.sin((11/6) * tf.math.atan(1/x)) - 7.08 * x**(5/6))
+            # The argument becomes negative for large antennas (x >= 7), for which there is no scintillation fading
+            g = tf.math.sqrt(tf.math.maximum(3.86 * (x**2 + 1)**(11/12) * tf.math.sin((11/6) * tf.math.atan(1/x)) - 7.08 * x**(5/6), 0.))
 
             # Step 7: Calculate the standard deviation of the signal for the period and propagation path
             g_x = (ref * f**(7/12) * g) / (math.sin(math.radians(Elev))**1.2)
-- 
2.43.0


From 73c65164b7df6b18780c1469954de58528847eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:43 +0000
Subject: [PATCH 10/13] fix: Faraday rotation in double precision with a plain
 carrier frequency

---
 OpenNTN/channel_coefficients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index 4febb44..7901265 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -1112,7 +1112,7 @@ class ChannelCoefficientsGenerator(Object):
         psi_in_deg = 108.0/(carrier_frequency_in_GHz*carrier_frequency_in_GHz)
         # TODO there is a bug report here,  appearently passing a Tensor to a NumPy call, which is not supported. Assumably psi in the functions is the issue,
         # but the bug could not yet be replicated. This comment serves as a reminder in case of future resurgence of the issue
-        psi_in_rad = psi_in_deg * (PI/180.0)
+        psi_in_rad = tf.cast(psi_in_deg * (PI/180.0), self.rdtype)
         faraday_cos = tf.fill(dims=aod_shape, value=tf.complex(tf.math.cos(psi_in_rad), tf.constant(0., self.rdtype)))
         faraday_sin = tf.fill(dims=aod_shape, value=tf.complex(tf.math.sin(psi_in_rad), tf.constant(0., self.rdtype)))
         faraday_minus_sin = tf.fill(dims=aod_shape, value=tf.complex(-tf.math.sin(psi_in_rad), tf.constant(0., self.rdtype)))
-- 
2.43.0


From 11bf1a7eb9a038c849c29bf632b6929f8df8dc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:01 +0000
Subject: [PATCH 11/13] fix: zero departure spreads per satellite instead of by
 the first one's height

---
 OpenNTN/rays.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/OpenNTN/rays.py b/OpenNTN/rays.py
index aab9000..38c6fb6 100644
--- a/OpenNTN/rays.py
+++ b/OpenNTN/rays.py
@@ -431,8 +431,10 @@ class RaysGenerator(Object):
             azimuth_angles_los = scenario.los_aod
             cluster_angle_spread = scenario.get_param('cASD')
             #Spread is 0 for satellite cases
-            if self._scenario.bs_loc[0,0,2] >= 160000:
-                azimuth_spread = tf.zeros_like(azimuth_spread)
+            is_satellite = tf.expand_dims(tf.expand_dims(
+                scenario.h_bs >= 160000, axis=2), axis=3)
+            azimuth_spread = tf.where(is_satellite,
+                tf.zeros_like(azimuth_spread), azimuth_spread)
             
         else:
             azimuth_angles_los = scenario.los_aoa
@@ -596,8 +598,10 @@ class RaysGenerator(Object):
             cluster_angle_spread = (3./8.)*tf.math.pow(tf.constant(10.,
                 self.rdtype),
                 scenario.lsp_log_mean[:,:,:,6])
-            if self._scenario.bs_loc[0,0,2] >= 160000:
-                zenith_spread = tf.zeros_like(zenith_spread)
+            is_satellite = tf.expand_dims(tf.expand_dims(
+                scenario.h_bs >= 160000, axis=2), axis=3)
+            zenith_spread = tf.where(is_satellite,
+                tf.zeros_like(zenith_spread), zenith_spread)
         else:
             cluster_angle_spread = scenario.get_param('cZSA')
             zenith_angles_los = scenario.los_zoa
-- 
2.43.0


From 1907ed893fd59609ed0d70174f67a129ac3523a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:13 +0000
Subject: [PATCH 12/13] fix: satellite Doppler for the satellites of a batch
 that are at or above 600 km, whatever the others

---
 OpenNTN/channel_coefficients.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index 7901265..1ab22ab 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -607,11 +607,12 @@ class ChannelCoefficientsGenerator(Object):
         # [batch size, num_tx, num rx, num clusters, num rays, num time steps]
         exponent = 2*PI/lambda_0*tf.reduce_sum(r_hat_ut*v_uts_bar, -2)*t
 
-        # Check if a satellite is used (height of satellite is at least 600km). This is done to potentially incorporate HAPS later
-        if tf.logical_and(tf.reduce_all(tf.less_equal(600000.0, topology.bs_height)), topology.doppler_enabled):
+        # Check which base stations are satellites (height is at least 600km). This is done to potentially incorporate HAPS later
+        if topology.doppler_enabled:
             # We get the maximum speed of the satellite based on its orbit and the users elevation angle. This value is multiplied with a random constant between [cos(0),cos(2pi))
             # to simulate the random direction of the orbit in relation to the users. 
-            max_sat_speed_for_elevation_angle = topology.sat_speed
+            max_sat_speed_for_elevation_angle = tf.where(tf.less_equal(600000.0, topology.bs_height),
+                                                         topology.sat_speed, tf.zeros_like(topology.sat_speed))
             # The Doppler shift induced phase shift between each time step
             max_rotation_per_time = (2.0*PI/lambda_0)*max_sat_speed_for_elevation_angle
 
-- 
2.43.0


From 0dfa164470ee96ce45600d276f0251bee7f52be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:28 +0000
Subject: [PATCH 13/13] fix: Faraday rotation for the satellites of a batch
 that are at or above 600 km, whatever the others

---
 OpenNTN/channel_coefficients.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index 1ab22ab..08a0055 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -847,6 +847,20 @@ class ChannelCoefficientsGenerator(Object):
 
         return h_field
 
+    def _satellite_links(self, topology):
+        r"""
+        Mask of the links whose base station is a satellite (height of at least 600km)
+
+        Output
+        ------
+        : [batch size, num_tx or 1, num rx or 1, 1, 1, 1, 1], tf.bool
+            Broadcastable with the phase matrices
+        """
+        is_satellite = tf.greater_equal(topology.bs_height, 600000.0)
+        # The BSs are at the end of the link that is not moving
+        is_satellite = tf.expand_dims(is_satellite, -1 if topology.moving_end == 'rx' else -2)
+        return is_satellite[..., tf.newaxis, tf.newaxis, tf.newaxis, tf.newaxis]
+
     def _step_11_nlos(self, phi, topology, rays, t, carrier_frequency):
         # pylint: disable=line-too-long
         r"""
@@ -875,10 +889,9 @@ class ChannelCoefficientsGenerator(Object):
         h_phase = self._step_11_phase_matrix(phi, rays)
 
         # Add Faraday phase rotation in NTN case
-        if tf.reduce_all(tf.greater_equal(topology.bs_height, 600000.0)):            
-            rays_shape = tf.shape(rays.aoa)
-            faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
-            h_phase = tf.matmul(h_phase,faraday_phase_rotation)
+        rays_shape = tf.shape(rays.aoa)
+        faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
+        h_phase = tf.where(self._satellite_links(topology), tf.matmul(h_phase,faraday_phase_rotation), h_phase)
             
         h_field = self._step_11_field_matrix(topology, rays.aoa, rays.aod,
                                                     rays.zoa, rays.zod, h_phase)
@@ -1023,11 +1036,9 @@ class ChannelCoefficientsGenerator(Object):
                                          [1,1,1,1,1,2,2])
         
         # Add Faraday phase rotation in NTN case
-        if tf.reduce_all(tf.greater_equal(topology.bs_height, 600000.0)):
-
-            rays_shape = tf.shape(aoa)
-            faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
-            h_phase = tf.matmul(h_phase,faraday_phase_rotation)
+        rays_shape = tf.shape(aoa)
+        faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
+        h_phase = tf.where(self._satellite_links(topology), tf.matmul(h_phase,faraday_phase_rotation), h_phase)
 
         h_field = self._step_11_field_matrix(topology, aoa, aod, zoa, zod,
                                                                     h_phase)
-- 
2.43.0

