From 596494ebe04cadd4322694e90c6ff5f004f6810c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:47 +0000
Subject: [PATCH 01/64] fix: M15 braking of a saturated primary normalises
 omega with omega_sol

---
 posydon/binary_evol/DT/magnetic_braking/prescriptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
index ae1aa05..fac311a 100644
--- a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
+++ b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
@@ -183,7 +183,7 @@ def M15_braking(primary, secondary, verbose = False):
 
     if (Rossby_number_pri < 0.14):
         dOmega_mb_pri = (
-            T0_pri * (chi**2.6) * (omega1 / 2.6e-6) / MOI_1
+            T0_pri * (chi**2.6) * (omega1 / omega_sol) / MOI_1
             * np.clip((1.5 - m1) / (1.5 - 1.3), 0, 1)
         )
     else:
-- 
2.43.0


From 05fe98da560ac285f8427884793c3dce089b166b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:47 +0000
Subject: [PATCH 02/64] fix: CARB braking of the primary is clipped with the
 primary's own mass

---
 posydon/binary_evol/DT/magnetic_braking/prescriptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
index fac311a..0900d8d 100644
--- a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
+++ b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
@@ -372,7 +372,7 @@ def CARB_braking(primary, secondary, verbose = False):
 
     dOmega_mb_pri = (
         (2./3.) * omega1 * mdot_1 * R_alfven_pri**2 / MOI_1
-        * np.clip((1.5 - m2) / (1.5 - 1.3), 0, 1)
+        * np.clip((1.5 - m1) / (1.5 - 1.3), 0, 1)
     )
 
     return -abs(dOmega_mb_sec), -abs(dOmega_mb_pri)
-- 
2.43.0


From 46a64114d0af418be2519310f896d028a12a6724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:28 +0000
Subject: [PATCH 03/64] fix: use the exploding star's mass loss for CC2 without
 kicks

---
 posydon/binary_evol/SN/step_SN.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index a003984..d524ac2 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -487,10 +487,14 @@ class StepSN(object):
         else:
             # no kick, but still need to unset the event after CC
             # and update orbital period/separation
+            if binary.event == "CC1":
+                SN_star, companion = binary.star_1, binary.star_2
+            else:
+                SN_star, companion = binary.star_2, binary.star_1
             binary.event = None
             new_separation = separation_evol_wind_loss(
-                    binary.star_1.mass, binary.star_1.mass_history[-1],
-                    binary.star_2.mass, binary.separation)
+                    SN_star.mass, SN_star.mass_history[-1],
+                    companion.mass, binary.separation)
             new_orbital_period = orbital_period_from_separation(
                     new_separation, binary.star_1.mass, binary.star_2.mass)
 
-- 
2.43.0


From af673f110e7910065536bcab7df93982516ffbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:28 +0000
Subject: [PATCH 04/64] fix: combine the companion's own tilt when star 1
 explodes second

---
 posydon/binary_evol/SN/step_SN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index d524ac2..e1ff961 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -2013,7 +2013,7 @@ class StepSN(object):
                         # Assume progenitor has aligned with the preSN orbital angular momentum
                         binary.star_1.spin_orbit_tilt_second_SN = tilt
                         binary.star_2.spin_orbit_tilt_second_SN = self.get_combined_tilt(
-                            tilt_1 = binary.star_1.spin_orbit_tilt_first_SN,
+                            tilt_1 = binary.star_2.spin_orbit_tilt_first_SN,
                             tilt_2 = tilt,
                             true_anomaly_1 = binary.true_anomaly_first_SN,
                             true_anomaly_2 = true_anomaly
-- 
2.43.0


From bd936f893675e49e5da0093dfef08d7f52c6b2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:05 +0000
Subject: [PATCH 05/64] fix: post-CE core radius of the companion in double CEs
 is its own

---
 posydon/binary_evol/CE/step_CEE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/CE/step_CEE.py b/posydon/binary_evol/CE/step_CEE.py
index dcbcd7f..036dc5f 100644
--- a/posydon/binary_evol/CE/step_CEE.py
+++ b/posydon/binary_evol/CE/step_CEE.py
@@ -435,10 +435,10 @@ class StepCEE(object):
         else:
             if comp_type == 'He_core':
                 mc2_f = comp_star.he_core_mass
-                rc2_f = donor.he_core_radius
+                rc2_f = comp_star.he_core_radius
             elif comp_type == 'CO_core':
                 mc2_f = comp_star.co_core_mass
-                rc2_f = donor.co_core_radius
+                rc2_f = comp_star.co_core_radius
             elif comp_type == 'not_giant_companion':
                 mc2_f = comp_star.mass
                 rc2_f = 10.**(comp_star.log_R)
-- 
2.43.0


From 8209a587a263bcdfa403174b74d5a01f9a126977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:34 +0000
Subject: [PATCH 06/64] fix: group the mass limits of flipped binaries in
 CO_HeMS_RLO_step

---
 posydon/binary_evol/MESA/step_mesa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index bfaec1b..ce77da6 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1597,14 +1597,14 @@ class CO_HeMS_RLO_step(MesaGridStep):
         # period inside the grid, but m1 outside the grid with flipped stars
         elif ((self.flip_stars_before_step and
                self.p_min <= p <= self.p_max and
-               m1 < self.m2_min or m1 > self.m2_max)):
+               (m1 < self.m2_min or m1 > self.m2_max))):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m2 ({m1}) is outside the grid,'
                                 ' while the period is inside the grid.')
         # period inside the grid, but m2 outside the grid with flipped stars
         elif ((self.flip_stars_before_step and
                 self.p_min <= p <= self.p_max and
-                m2 < self.m1_min or m2 > self.m1_max)):
+                (m2 < self.m1_min or m2 > self.m1_max))):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m1 ({m2}) is outside the grid,'
                                 ' while the period is inside the grid.')
-- 
2.43.0


From 1b0ad1fe55f40f2793e8cb96f2398512a3a2e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:34 +0000
Subject: [PATCH 07/64] fix: check the limits of CO_HeMS_step against the
 flipped masses

---
 posydon/binary_evol/MESA/step_mesa.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index ce77da6..6fe2209 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1694,16 +1694,24 @@ class CO_HeMS_step(MesaGridStep):
             super().__call__(binary)
 
         # period inside the grid, but m1 outside the grid
-        elif (self.p_min <= p <= self.p_max) and (m1 < self.m1_min or m1 > self.m1_max):
+        elif ((self.p_min <= p <= self.p_max) and
+              (not self.flip_stars_before_step and
+               (m1 < self.m1_min or m1 > self.m1_max)
+               or self.flip_stars_before_step and
+               (m2 < self.m1_min or m2 > self.m1_max))):
             set_binary_to_failed(self.binary)
-            raise GridError(f'The mass of m1 ({m1}) is outside the grid,'
-                             ' while the period is inside the grid.')
+            raise GridError(f'The mass of m1 ({m2 if self.flip_stars_before_step else m1})'
+                             ' is outside the grid, while the period is inside the grid.')
 
         # period inside the grid, but m2 outside the grid
-        elif (self.p_min <= p <= self.p_max) and (m2 < self.m2_min or m2 > self.m2_max):
+        elif ((self.p_min <= p <= self.p_max) and
+              (not self.flip_stars_before_step and
+               (m2 < self.m2_min or m2 > self.m2_max)
+               or self.flip_stars_before_step and
+               (m1 < self.m2_min or m1 > self.m2_max))):
             set_binary_to_failed(self.binary)
-            raise GridError(f'The mass of m2 ({m2}) is outside the grid,'
-                             ' while the period is inside the grid.')
+            raise GridError(f'The mass of m2 ({m1 if self.flip_stars_before_step else m2})'
+                             ' is outside the grid, while the period is inside the grid.')
 
         else:
             self.binary.state = 'detached'
-- 
2.43.0


From 2462af3d646ff4af49f4c25f997c806b41e3b2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:40 +0000
Subject: [PATCH 08/64] fix: flip_stars also exchanges double CE and merger
 events

---
 posydon/utils/common_functions.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index d3e0a29..bdac087 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -1421,6 +1421,14 @@ def flip_stars(binary):
         setattr(binary, 'event', 'oCE2')
     elif event == 'oCE2':
         setattr(binary, 'event', 'oCE1')
+    if event == 'oDoubleCE1':
+        setattr(binary, 'event', 'oDoubleCE2')
+    elif event == 'oDoubleCE2':
+        setattr(binary, 'event', 'oDoubleCE1')
+    if event == 'oMerging1':
+        setattr(binary, 'event', 'oMerging2')
+    elif event == 'oMerging2':
+        setattr(binary, 'event', 'oMerging1')
     if event == 'CC1':
         setattr(binary, 'event', 'CC2')
     elif event == 'CC2':
@@ -1446,6 +1454,14 @@ def flip_stars(binary):
     cond_oCE1 = event_history == 'oCE2'
     event_history[cond_oCE2] = 'oCE2'
     event_history[cond_oCE1] = 'oCE1'
+    cond_oDoubleCE2 = event_history == 'oDoubleCE1'
+    cond_oDoubleCE1 = event_history == 'oDoubleCE2'
+    event_history[cond_oDoubleCE2] = 'oDoubleCE2'
+    event_history[cond_oDoubleCE1] = 'oDoubleCE1'
+    cond_oMerging2 = event_history == 'oMerging1'
+    cond_oMerging1 = event_history == 'oMerging2'
+    event_history[cond_oMerging2] = 'oMerging2'
+    event_history[cond_oMerging1] = 'oMerging1'
     setattr(binary, 'event_history', event_history.tolist())
 
     for i in ['t_sync_rad_', 't_sync_conv_', 'rl_relative_overflow_']:
-- 
2.43.0


From 4eec9b0f28826f963b8a9ff19b5fa0b5a9dd58a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:10 +0000
Subject: [PATCH 09/64] fix: define the step after redirect_from_HMS_HMS_RLO in
 the eccentric flow chart

---
 posydon/binary_evol/flow_chart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/posydon/binary_evol/flow_chart.py b/posydon/binary_evol/flow_chart.py
index bb859d0..369568c 100644
--- a/posydon/binary_evol/flow_chart.py
+++ b/posydon/binary_evol/flow_chart.py
@@ -163,6 +163,7 @@ BINARY_EVENTS_ALL = [
     'redirect_from_CO_HMS_RLO',
     'redirect_from_CO_HeMS',
     'redirect_from_CO_HeMS_RLO',
+    'redirect_from_HMS_HMS_RLO',
     'MaxTime_exceeded',
     'maxtime',
     'oMerging1',
@@ -442,5 +443,7 @@ def initial_eccentricity_flow_chart(FLOW_CHART=None, CHANGE_FLOW_CHART=None):
         for s2 in STAR_STATES_H_RICH_EVOLVABLE + STAR_STATES_HE_RICH_EVOLVABLE:
             MY_FLOW_CHART[(s1, s2, 'RLO1', 'oRLO1')] = 'step_HMS_HMS_RLO'
             MY_FLOW_CHART[(s1, s2, 'RLO2', 'oRLO2')] = 'step_HMS_HMS_RLO'
+            # outside the grid limits the step redirects to detached
+            MY_FLOW_CHART[(s1, s2, 'detached', 'redirect_from_HMS_HMS_RLO')] = 'step_detached'
 
     return MY_FLOW_CHART
-- 
2.43.0


From 32ad704792531ef7708ec2c8afd21406255fe621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:47 +0000
Subject: [PATCH 10/64] fix: contact binaries go to the common envelope
 whichever star is the compact object

---
 posydon/binary_evol/flow_chart.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/posydon/binary_evol/flow_chart.py b/posydon/binary_evol/flow_chart.py
index 369568c..7b42e58 100644
--- a/posydon/binary_evol/flow_chart.py
+++ b/posydon/binary_evol/flow_chart.py
@@ -275,6 +275,10 @@ for s1 in STAR_STATES_NORMALSTAR:
         POSYDON_FLOW_CHART[(s2, s1, 'contact', 'oCE2')] = 'step_CE'
         POSYDON_FLOW_CHART[(s2, s1, 'contact', 'oDoubleCE1')] = 'step_CE'
         POSYDON_FLOW_CHART[(s2, s1, 'contact', 'oDoubleCE2')] = 'step_CE'
+        POSYDON_FLOW_CHART[(s1, s2, 'contact', 'oCE1')] = 'step_CE'
+        POSYDON_FLOW_CHART[(s1, s2, 'contact', 'oCE2')] = 'step_CE'
+        POSYDON_FLOW_CHART[(s1, s2, 'contact', 'oDoubleCE1')] = 'step_CE'
+        POSYDON_FLOW_CHART[(s1, s2, 'contact', 'oDoubleCE2')] = 'step_CE'
 
 
 for b in BINARY_STATES_CC:
-- 
2.43.0


From ed57ca37bac2428dc3fd146603c74ac2b285d75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:22 +0000
Subject: [PATCH 11/64] fix: select CO-HeMS systems by step name, no event is
 called step_CE

---
 posydon/visualization/plot_pop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/visualization/plot_pop.py b/posydon/visualization/plot_pop.py
index 866a5f2..6867938 100644
--- a/posydon/visualization/plot_pop.py
+++ b/posydon/visualization/plot_pop.py
@@ -342,7 +342,7 @@ def get_population_data(pop, metallicity, grid_type, channel=None, prop=None):
         data['S1_mass'] = tmp_S1
 
     elif grid_type == 'CO-HeMS':
-        data = data[data['event'] == 'step_CE']
+        data = data[data['step_names'] == 'step_CE']
         # swap the masses since data has CO as the primary
         tmp_S1 = data['S2_mass'].copy()
         data['S2_mass'] = data['S1_mass'].copy()
-- 
2.43.0


From ceb01dd5cfad90a4205b32877f84e05bff1bd8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:22 +0000
Subject: [PATCH 12/64] fix: VH diagram skips the redirect_from_* rows

---
 posydon/visualization/VH_diagram/Presenter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/visualization/VH_diagram/Presenter.py b/posydon/visualization/VH_diagram/Presenter.py
index 040ceaf..9828fb1 100644
--- a/posydon/visualization/VH_diagram/Presenter.py
+++ b/posydon/visualization/VH_diagram/Presenter.py
@@ -891,7 +891,7 @@ class Presenter:
         simplified_data = []
 
         for index, row in data.iterrows():
-            if row["event"] == "END" or row["event"] == "redirect":
+            if row["event"] == "END" or "redirect" in str(row["event"]):
                 continue
 
             new_data = to_simplified_data(row)
-- 
2.43.0


From 19e411636772b4be3726216246e937799c73c276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:23 +0000
Subject: [PATCH 13/64] fix: CO_HMS_RLO_step accepts every donor state the flow
 chart sends to it

---
 posydon/binary_evol/MESA/step_mesa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 6fe2209..193eee8 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1420,8 +1420,10 @@ class CO_HMS_RLO_step(MesaGridStep):
                           "H-rich_Shell_H_burning",
                           "H-rich_Core_He_burning",
                           "H-rich_Core_He_depleted",
+                          "H-rich_Shell_He_burning",
                           "H-rich_Core_C_burning",
                           "accreted_He_Core_H_burning",
+                          "accreted_He_Shell_H_burning",
                           "H-rich_Core_C_depleted",  # filtered out below
                           "H-rich_non_burning",
                           "accreted_He_non_burning"]
-- 
2.43.0


From 13a406345deba2b9f39c5d3eebc9deed4bb42a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:42 +0000
Subject: [PATCH 14/64] fix: profile interpolator warns with Pwarn, PWarn does
 not exist

---
 posydon/interpolation/profile_interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/interpolation/profile_interpolation.py b/posydon/interpolation/profile_interpolation.py
index b1854b3..e1bfa45 100644
--- a/posydon/interpolation/profile_interpolation.py
+++ b/posydon/interpolation/profile_interpolation.py
@@ -277,7 +277,7 @@ class ProfileInterpolator:
             elif train_comp==True and train_density!=True:
                 return self.comp.loss_history
             else:
-                PWarn("No models selected for training","IncompletenessWarning")
+                Pwarn("No models selected for training","IncompletenessWarning")
                 return
 
     def predict(self,inputs):
@@ -308,7 +308,7 @@ class ProfileInterpolator:
         elif self.train_comp==True and self.train_density!=True:
             return mass_coords, h_profiles, he_profiles
         else:
-            PWarn("No models were trained","IncompletenessWarning")
+            Pwarn("No models were trained","IncompletenessWarning")
             return
 
     def save(self, filename):
-- 
2.43.0


From 29482edddb4aee5792cc33198a6da90c2ca51044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:42 +0000
Subject: [PATCH 15/64] fix: MesaGridStep reports its class name when no step
 is defined

---
 posydon/binary_evol/MESA/step_mesa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 193eee8..16c7886 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -366,7 +366,8 @@ class MesaGridStep:
         if not isinstance(binary, BinaryStar):
             raise ValueError("Must be an instance of BinaryStar")
         if not hasattr(self, 'step'):
-            raise ValueError("No step defined for {}".format(self.__name__))
+            raise ValueError("No step defined for {}".format(
+                self.__class__.__name__))
 
         if self.flip_stars_before_step:
             flip_stars(binary)
-- 
2.43.0


From d49b61eb70962480f1461d20a1b7fa22ead6485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:42 +0000
Subject: [PATCH 16/64] fix: verbose Couch20_corecollapse prints its turbulence
 strength, it has no engine

---
 posydon/binary_evol/SN/step_SN.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index e1ff961..45d99b2 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -2804,8 +2804,8 @@ class Couch20_corecollapse(object):
             # path_engine_dataset = path_to_Sukhbold_datasets
             if verbose:
                 print(
-                    "Class initialisation, load the train dataset for engine "
-                    + self.engine
+                    "Class initialisation, load the train dataset for turbulence "
+                    "strength " + self.turbulence_strength
                     + " ..."
                 )
 
-- 
2.43.0


From 5cdebed8a43db1a5db0577eaffa4cd66af8da5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:42 +0000
Subject: [PATCH 17/64] fix: StepSN.check tests kick_prescription,
 kick_distribution does not exist

---
 posydon/binary_evol/SN/step_SN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index 45d99b2..f3a5bf2 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -525,7 +525,7 @@ class StepSN(object):
 
     def check(self):
         """Check the internal integrity and the values of the parameters."""
-        if self.kick_distribution is None:
+        if self.kick_prescription is None:
             raise ValueError("Undefined supernova kick velocity distribution")
 
     def collapse_star(self, star):
-- 
2.43.0


From df74d5bf9adb434e0c2820729f319f0db964dc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:55 +0000
Subject: [PATCH 18/64] fix: train_and_assess builds BaseIFInterpolators and
 passes labels to confusion_matrix by name

---
 posydon/interpolation/IF_interpolation.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index 407e43a..d743394 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -1657,21 +1657,21 @@ def train_and_assess(grid_train, grid_test, ux2, path, classes):
     dat = date.today().strftime("%y%m%d")
 
     interp_method, class_method = "linear", "kNN"
-    mlin = IFInterpolator(grid=grid_T, interp_method=interp_method,
-                          class_method=class_method)
+    mlin = BaseIFInterpolator(grid=grid_T, interp_method=interp_method,
+                              class_method=class_method)
     name = "IF_" + dat + '_' + interp_method + "_" + class_method + ".pkl"
     mlin.save(os.path.join(path2obj, name))
 
     interp_method, class_method = "1NN", "1NN"
-    m1NN = IFInterpolator(grid=grid_T, interp_method=interp_method,
-                          class_method=class_method)
+    m1NN = BaseIFInterpolator(grid=grid_T, interp_method=interp_method,
+                              class_method=class_method)
     name = "IF_" + dat + '_' + interp_method + "_" + class_method + ".pkl"
     m1NN.save(os.path.join(path2obj, name))
 
     interp_method, class_method = "linear", "kNN"
     # classes = ['no_MT', 'stable_MT', 'unstable_MT', 'stable_reverse_MT']
-    mMC = IFInterpolator(grid=grid_T, interp_method=interp_method,
-                         class_method=class_method, interp_classes=classes)
+    mMC = BaseIFInterpolator(grid=grid_T, interp_method=interp_method,
+                             class_method=class_method, interp_classes=classes)
     interp_method = "linear3c"
     name = "IF_" + dat + "_" + interp_method + "_" + class_method + ".pkl"
     mMC.save(os.path.join(path2obj, name))
@@ -1744,7 +1744,7 @@ def assess_models(models, grid_T, grid_t, ux2, path='./'):
                 oa = np.sum(Ztpred[i][key] == zt_gt) / len(zt_gt)
                 print(f"\t  Overall Accuracy: {100 * oa:.3f}")
                 CM = confusion_matrix(zt_gt, Ztpred[i][key],
-                                      m.classifiers[key].labels)
+                                      labels=m.classifiers[key].labels)
                 savename = os.path.join(
                     path2prmaps, key + '_' + class_methods[i] + '.png')
                 fig, ax = plot_conf_matrix(
-- 
2.43.0


From 97913708ef7b5b53b341a3713ce408df9c4caa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:55 +0000
Subject: [PATCH 19/64] fix: ParseDataFrame.parse_dataf_gb_iter_chunk uses its
 instance and the grouped frame

---
 posydon/visualization/VH_diagram/ParseDataFrame.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/visualization/VH_diagram/ParseDataFrame.py b/posydon/visualization/VH_diagram/ParseDataFrame.py
index 00a92be..ef6de94 100644
--- a/posydon/visualization/VH_diagram/ParseDataFrame.py
+++ b/posydon/visualization/VH_diagram/ParseDataFrame.py
@@ -78,7 +78,7 @@ class ParseDataFrame:
         #one can then acess columns for VHDiagramm_m
         return np.array(self.count_dict.most_common(k))
 
-    def parse_dataf_gb_iter_chunk(dataf, index_list, cnt):
+    def parse_dataf_gb_iter_chunk(self):
         """a more relevant parser imo but turns out to take more time than than groupby/apply"""
         file_path = os.path.join(self.path, self.filename)
         rdf = pd.DataFrame(columns = self.column_list, index=pd.Index([], name=self.index_name))
@@ -94,7 +94,7 @@ class ParseDataFrame:
             dataf = dataf.drop(dataf.index[-1])
 
             gb_df_col = dataf.groupby(dataf.index.name)
-            for i,s in gb_df_col.__iter__():
+            for i, df_gb in gb_df_col:
                 h = hash(tuple(df_gb.to_numpy().ravel()))
                 self.counts[h] += 1
                 self.index_list.setdefault(h, df_gb.index[0])
-- 
2.43.0


From c5464b826fef30a9c732007527912f1df1f91d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:12 +0000
Subject: [PATCH 20/64] fix: check_order_of_constraints reads the constraint
 dictionaries

---
 posydon/interpolation/constraints.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/posydon/interpolation/constraints.py b/posydon/interpolation/constraints.py
index 45fbf75..90d37ca 100644
--- a/posydon/interpolation/constraints.py
+++ b/posydon/interpolation/constraints.py
@@ -365,11 +365,13 @@ def check_order_of_constraints():
     changed_so_far, used_so_far = set(), set()
 
     for constraint in CONSTRAINTS:
+        if constraint["type"] != 1:
+            continue
         # find all colnames for the independent variables (including per star)
         indep_cols = set([col.format(star) for star in [1, 2]
-                         for col in constraint.independent])
+                         for col in constraint["independent"]])
         # same with dependent variables
-        dep_cols = set([constraint.dependent.format(star) for star in [1, 2]])
+        dep_cols = set([constraint["dependent"].format(star) for star in [1, 2]])
 
         # track quantities relevant to this constraint, already encountered
         already_changed = changed_so_far.intersection(indep_cols)
@@ -379,14 +381,14 @@ def check_order_of_constraints():
         if len(already_changed) > 0:
             print("In constraint {}, independent quanitities ({}) may have "
                   "been modified by a previous constraint.".format(
-                      constraint.name, already_changed))
+                      constraint["name"], already_changed))
         if len(about_to_change) > 0:
             print("Constraint {} may modify previously used dependent "
-                  "quanitities ({}).".format(constraint.name, about_to_change))
+                  "quanitities ({}).".format(constraint["name"], about_to_change))
 
         # you've seen these now...
         changed_so_far.update(dep_cols)
-        used_so_far.upate(indep_cols)
+        used_so_far.update(indep_cols)
 
 
 def find_constraints_to_apply(out_keys):
-- 
2.43.0


From 5cfd3146a603aa5276f0294a6afe0ec90d53b7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:12 +0000
Subject: [PATCH 21/64] fix: dlogZ given as an array is recognised (np.array is
 not a class)

---
 posydon/popsyn/synthetic_population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 9e1afb8..9657251 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -2882,7 +2882,7 @@ class Rates(TransientPopulation):
                 bin_met[0] = met_val[0] - self.MODEL["dlogZ"] / 2.0
                 bin_met[-1] = met_val[0] + self.MODEL["dlogZ"] / 2.0
             elif isinstance(self.MODEL["dlogZ"], list) or isinstance(
-                self.MODEL["dlogZ"], np.array
+                self.MODEL["dlogZ"], np.ndarray
             ):  # pragma: no branch
                 bin_met[0] = self.MODEL["dlogZ"][0]
                 bin_met[-1] = self.MODEL["dlogZ"][1]
-- 
2.43.0


From f639d1d50c6d203c9758564299b4c9f83fea0f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:37 +0000
Subject: [PATCH 22/64] fix: detached step recorded the last interpolated time
 twice in every history

---
 posydon/binary_evol/DT/step_detached.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 73907fd..682056e 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -727,7 +727,7 @@ class detached_step:
                 # such that history has more than one entry.
                 # Otherwise, this is updated later in BinaryStar.run_step()
                 if len(history) > 1:
-                    getattr(obj, key + "_history").extend(history)
+                    getattr(obj, key + "_history").extend(history[:-1])
 
     def update_co_stars(self, t, primary, secondary):
 
@@ -771,7 +771,7 @@ class detached_step:
                 current = history[-1]
                 setattr(obj, key, current)
                 if len(history) > 1:
-                    getattr(obj, key + "_history").extend(history)
+                    getattr(obj, key + "_history").extend(history[:-1])
 
 class detached_evolution:
     """
-- 
2.43.0


From 8f252f863dec3b67ebfb0364774e4952b6a230e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:56 +0000
Subject: [PATCH 23/64] fix: step-name and step-time hooks stay as long as the
 history after an unrecorded redirect step

---
 posydon/binary_evol/simulationproperties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/simulationproperties.py b/posydon/binary_evol/simulationproperties.py
index c06675e..9039dc8 100644
--- a/posydon/binary_evol/simulationproperties.py
+++ b/posydon/binary_evol/simulationproperties.py
@@ -889,7 +889,7 @@ class TimingHooks(EvolveHooks):
             binary.step_times += [None] * (diff)
         elif len(binary.event_history) < len(binary.step_times):
             last_items = len(binary.event_history)
-            binary.step_times = binary.step_times[-(last_items - 1):]
+            binary.step_times = binary.step_times[:last_items]
 
         return binary
 
@@ -932,7 +932,7 @@ class StepNamesHooks(EvolveHooks):
         if len_binary_hist > len_step_names:
             binary.step_names += [None] * (diff)
         elif len_binary_hist < len_step_names:
-            binary.step_names = binary.step_names[-(len_binary_hist - 1):]
+            binary.step_names = binary.step_names[:len_binary_hist]
 
         return binary
 
-- 
2.43.0


From fef3d16f9f923b35aa7f90750a5b5f54510c7a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:10 +0000
Subject: [PATCH 24/64] fix: pad star histories with the number of rows missing
 in the star's own history

---
 posydon/binary_evol/MESA/step_mesa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 16c7886..05ab0f5 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -722,7 +722,7 @@ class MesaGridStep:
                             getattr(star, key_h))
                         if missing_values_star > 0:
                             getattr(star, key_h).extend(
-                                [np.nan]*missing_values)
+                                [np.nan]*missing_values_star)
 
         # convert these flags to default POSYDON star states
         setattr(stars[0], 'state',
-- 
2.43.0


From 7185db023d0dce51adf348aca16e48d2834a6945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:10 +0000
Subject: [PATCH 25/64] fix: nearest-neighbour step works without saved initial
 conditions (length_hist was unbound)

---
 posydon/binary_evol/MESA/step_mesa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 05ab0f5..be048f4 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -510,6 +510,7 @@ class MesaGridStep:
         if binary.state == 'initial_RLOF':
             return
 
+        length_hist = 0
         if track_interpolation or self.save_initial_conditions:
             len_binary_hist = len(getattr(binary, "time_history"))
             length_binary_hist = len(cb_bh['age']) - 1
-- 
2.43.0


From cdeb0d355c0e70aac3c5ac9c93f088afdc0fcd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:37 +0000
Subject: [PATCH 26/64] fix: look up one-line column types by the whole
 property name

---
 posydon/popsyn/io.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/posydon/popsyn/io.py b/posydon/popsyn/io.py
index 810b6cc..bf2692b 100644
--- a/posydon/popsyn/io.py
+++ b/posydon/popsyn/io.py
@@ -318,8 +318,7 @@ def clean_binary_oneline_df(oneline_df, extra_binary_dtypes_user=None,
     # Create a dict with column-dtype mapping only for columns in binary_df
     common_dtype_dict = {}
     # helper function to remove the '_i' and '_f'
-    strip_prefix_and_suffix = lambda key : key.replace('_i', '').replace('_f', '') \
-                                             .replace('S1_', '').replace('S2_', '')
+    strip_prefix_and_suffix = lambda key : key[:-2].replace('S1_', '').replace('S2_', '')
     for key in common_keys:
         if key in scalar_keys:
             common_dtype_dict[key] = SCALAR_NAMES_DTYPES.get(
-- 
2.43.0


From 57eee4016bc1c865fa00810fd3cf7f3850b17222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:37 +0000
Subject: [PATCH 27/64] fix: from_oneline_df lost properties with '_i' inside
 their name

---
 posydon/binary_evol/binarystar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index d89f12d..6d57eda 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -824,7 +824,7 @@ class BinaryStar:
         for name in list(oneline_df.columns):
             if '_f' in name[-2:]:
                 continue    # ignore final values
-            param_name = name.split('_i')[0]
+            param_name = name[:-2] if name.endswith('_i') else name
 
             special_cases = ['natal_kick_array']
             if any([i in param_name for i in special_cases]):
-- 
2.43.0


From 1c6d878384560f7b244c6c189d56e89cb54ffc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:37 +0000
Subject: [PATCH 28/64] fix: derive the missing orbital period from the
 separation when reading tables

---
 posydon/binary_evol/binarystar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 6d57eda..2b07324 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -681,9 +681,9 @@ class BinaryStar:
             setattr(binary, 'separation_history', list(separation))
             setattr(binary, 'separation', list(separation)[-1])
         if ('orbital_period_history' not in bp_keys
-                and 'seperation_history' in bp_keys):
+                and 'separation_history' in bp_keys):
             period = orbital_period_from_separation(
-                            np.array(binary.seperation_history),
+                            np.array(binary.separation_history),
                             np.array(binary.star_1.mass_history),
                             np.array(binary.star_2.mass_history),)
             setattr(binary, 'orbital_period_history', list(period))
@@ -909,9 +909,9 @@ class BinaryStar:
             setattr(binary, 'separation_history', list(separation))
             setattr(binary, 'separation', list(separation)[-1])
         if ('orbital_period_history' not in bp_keys
-                and 'seperation_history' in bp_keys):
+                and 'separation_history' in bp_keys):
             period = orbital_period_from_separation(
-                            np.array(binary.seperation_history),
+                            np.array(binary.separation_history),
                             np.array(binary.star_1.mass_history),
                             np.array(binary.star_2.mass_history),)
             setattr(binary, 'orbital_period_history', list(period))
-- 
2.43.0


From 01ae9e1d56eaa5bab6550b1654a3db6eee7e3b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:37 +0000
Subject: [PATCH 29/64] fix: from_oneline_df failed on tables with natal kick
 arrays

---
 posydon/binary_evol/binarystar.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 2b07324..53e61a2 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -865,20 +865,20 @@ class BinaryStar:
                                for i in range(4)]
             natal_kick_values = oneline_df[natalkick_names].values[0]
             # Set individual natal kick properties
-            star1_params['natal_kick_velocity'] = natal_kick_values[0]
-            star1_params['natal_kick_azimuthal_angle'] = natal_kick_values[1]
-            star1_params['natal_kick_polar_angle'] = natal_kick_values[2]
-            star1_params['natal_kick_mean_anomaly'] = natal_kick_values[3]
+            star1_params['natal_kick_velocity'] = [natal_kick_values[0]]
+            star1_params['natal_kick_azimuthal_angle'] = [natal_kick_values[1]]
+            star1_params['natal_kick_polar_angle'] = [natal_kick_values[2]]
+            star1_params['natal_kick_mean_anomaly'] = [natal_kick_values[3]]
 
         if any(['S2_natal_kick_array' in name for name in oneline_df.columns]):
             natalkick_names = ['S2_natal_kick_array_{}'.format(i)
                                for i in range(4)]
             natal_kick_values = oneline_df[natalkick_names].values[0]
             # Set individual natal kick properties
-            star2_params['natal_kick_velocity'] = natal_kick_values[0]
-            star2_params['natal_kick_azimuthal_angle'] = natal_kick_values[1]
-            star2_params['natal_kick_polar_angle'] = natal_kick_values[2]
-            star2_params['natal_kick_mean_anomaly'] = natal_kick_values[3]
+            star2_params['natal_kick_velocity'] = [natal_kick_values[0]]
+            star2_params['natal_kick_azimuthal_angle'] = [natal_kick_values[1]]
+            star2_params['natal_kick_polar_angle'] = [natal_kick_values[2]]
+            star2_params['natal_kick_mean_anomaly'] = [natal_kick_values[3]]
 
         if ('binary_index' in oneline_df.index.name
                 and not kwargs.get('index', None)):
-- 
2.43.0


From 1fd364e9119d1f89d40d9838f8bc8dbcf2b2875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:52 +0000
Subject: [PATCH 30/64] fix: roche_lobe_radius overwrote invalid entries of the
 caller's arrays

---
 posydon/utils/common_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index bdac087..4504777 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -256,7 +256,7 @@ def roche_lobe_radius(m1, m2, a_orb=1):
         elif np.any(a_orb < 0):
             Pwarn("Trying to compute RL radius for binary with invalid"
                   " separation", "EvolutionWarning")
-            a_orb[a_orb < 0] = np.nan
+            a_orb = np.where(a_orb < 0, np.nan, a_orb)
     ## catching if a_orb is a float with invalid separation value
     elif a_orb < 0:
         Pwarn("Trying to compute RL radius for binary with invalid separation",
@@ -272,7 +272,7 @@ def roche_lobe_radius(m1, m2, a_orb=1):
         elif np.any(m1 <= 0):
             Pwarn("Trying to compute RL radius for nonexistent object",
                   "EvolutionWarning")
-            m1[m1 <= 0] = np.nan
+            m1 = np.where(m1 <= 0, np.nan, m1)
     elif m1 <= 0:
         Pwarn("Trying to compute RL radius for nonexistent object",
               "EvolutionWarning")
@@ -287,7 +287,7 @@ def roche_lobe_radius(m1, m2, a_orb=1):
         elif np.any(m2 <= 0):
             Pwarn("Trying to compute RL radius for nonexistent companion",
                   "EvolutionWarning")
-            m2[m2 <= 0] = np.nan
+            m2 = np.where(m2 <= 0, np.nan, m2)
     elif m2 <= 0:
         Pwarn("Trying to compute RL radius for nonexistent companion",
               "EvolutionWarning")
-- 
2.43.0


From 4ae3916381ad4a8806dc6287f0dd8b4b52238d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:52 +0000
Subject: [PATCH 31/64] fix: zero_negative_values zeroed the caller's array in
 place

---
 posydon/utils/common_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index 4504777..4149f88 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -117,7 +117,7 @@ def zero_negative_values(arr, key): # pragma no cover
         np.ndarray
             The processed array with negative values set to zero.
     """
-    arr = np.atleast_1d(arr)
+    arr = np.array(arr, ndmin=1)
 
     if np.any(arr < 0):
         Pwarn("A " + key + " value is negative. Setting to zero.",
-- 
2.43.0


From e9cb4134f4330b67b3e90e326e78c80f2789f053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:52 +0000
Subject: [PATCH 32/64] fix: calculate_recombination_energy clipped the
 ionization columns of the profile in place

---
 posydon/utils/common_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index 4149f88..8f14ecc 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -2683,15 +2683,15 @@ def calculate_recombination_energy(profile, tolerance=0.001):
         specific_donor_recomb_energy = profile["radius"] * 0.0
     else:
         # from MESA/binary/private/binary_ce.f90
-        frac_HI = profile["neutral_fraction_H"]
+        frac_HI = profile["neutral_fraction_H"].copy()
         for i in range(len(frac_HI)):
             # TODO: For some reason this is a bit > 1 in the outer envelope.
             #       Maybe not important but better to solve it.
             frac_HI[i] = min(1., frac_HI[i])
         frac_HII = 1.0 - frac_HI
 
-        frac_HeI = profile["neutral_fraction_He"]
-        avg_charge_He = profile["avg_charge_He"]
+        frac_HeI = profile["neutral_fraction_He"].copy()
+        avg_charge_He = profile["avg_charge_He"].copy()
         for i in range(len(frac_HeI)):
             frac_HeI[i] = min(1., frac_HeI[i])
             # knowing the frac_HeI and the avg_charge_He,
-- 
2.43.0


From 5515f13a99af4ef69f520ac7dbc5384c331ffdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:52 +0000
Subject: [PATCH 33/64] fix: chi_eff replaced undefined spins and tilts in the
 caller's table

---
 posydon/popsyn/transient_select_funcs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/posydon/popsyn/transient_select_funcs.py b/posydon/popsyn/transient_select_funcs.py
index c3169e5..a10d522 100644
--- a/posydon/popsyn/transient_select_funcs.py
+++ b/posydon/popsyn/transient_select_funcs.py
@@ -150,18 +150,22 @@ def chi_eff(m_1, m_2, a_1, a_2, tilt_1, tilt_2):
     if pd.isna(a_1).any():
         Pwarn("a_1 contains undefined values, replacing them with 0.0",
               'ReplaceValueWarning')
+        a_1 = a_1.copy()
         a_1[pd.isna(a_1)] = 0.0
     if pd.isna(a_2).any():
         Pwarn("a_2 contains undefined values, replacing them with 0.0",
               'ReplaceValueWarning')
+        a_2 = a_2.copy()
         a_2[pd.isna(a_2)] = 0.0
     if pd.isna(tilt_1).any():
         Pwarn("tilt_1 contains undefined values, replacing them with 0.0",
               'ReplaceValueWarning')
+        tilt_1 = tilt_1.copy()
         tilt_1[pd.isna(tilt_1)] = 0.0
     if pd.isna(tilt_2).any():
         Pwarn("tilt_2 contains undefined values, replacing them with 0.0",
               'ReplaceValueWarning')
+        tilt_2 = tilt_2.copy()
         tilt_2[pd.isna(tilt_2)] = 0.
     return (m_1*a_1*np.cos(tilt_1)+m_2*a_2*np.cos(tilt_2))/(m_1+m_2)
 
-- 
2.43.0


From f8e2653129d390370cb484e74a1bcb667731af84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:52 +0000
Subject: [PATCH 34/64] fix: DCO_detectability multiplied the caller's weights
 in place

---
 posydon/popsyn/transient_select_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/transient_select_funcs.py b/posydon/popsyn/transient_select_funcs.py
index a10d522..9f3fd3f 100644
--- a/posydon/popsyn/transient_select_funcs.py
+++ b/posydon/popsyn/transient_select_funcs.py
@@ -323,7 +323,7 @@ def DCO_detectability(sensitivity, transient_pop_chunk, z_events_chunk, z_weight
                                         transient_pop_chunk['S1_spin_orbit_tilt_at_merger'],
                                         transient_pop_chunk['S2_spin_orbit_tilt_at_merger'])
 
-    detectable_weights = z_weights_chunk.to_numpy()
+    detectable_weights = z_weights_chunk.to_numpy(copy=True)
     for i in tqdm(range(z_events_chunk.shape[1]), total=z_events_chunk.shape[1], disable= not verbose):
         data_slice['z'] = z_events_chunk.iloc[:,i]
         mask = pd.notna(data_slice['z']).to_numpy()
-- 
2.43.0


From 1b1021c3718dab7cf99f943bebb17997aa59a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:52 +0000
Subject: [PATCH 35/64] fix: Scaler.denormalize overwrote the normalized values
 it was given

---
 posydon/interpolation/IF_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index d743394..69bb9bc 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -1518,7 +1518,7 @@ class Scaler:
 
         else:
 
-            normalized = Xn
+            normalized = Xn.copy()
 
             classes = np.unique(klass)
 
-- 
2.43.0


From cea625b2e08175f63a351ee251076e6bac3dbac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:52 +0000
Subject: [PATCH 36/64] fix: flow_chart changed the flow chart it was given

---
 posydon/binary_evol/flow_chart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/binary_evol/flow_chart.py b/posydon/binary_evol/flow_chart.py
index 7b42e58..96282c0 100644
--- a/posydon/binary_evol/flow_chart.py
+++ b/posydon/binary_evol/flow_chart.py
@@ -394,7 +394,8 @@ def flow_chart(FLOW_CHART=None, CHANGE_FLOW_CHART=None):
 
     """
     if FLOW_CHART is None:
-        FLOW_CHART = POSYDON_FLOW_CHART.copy()
+        FLOW_CHART = POSYDON_FLOW_CHART
+    FLOW_CHART = FLOW_CHART.copy()
 
     if CHANGE_FLOW_CHART is not None:
         for key in CHANGE_FLOW_CHART.keys():
-- 
2.43.0


From 8e57471364172856d3f7896cc85a7c94af38d1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:52 +0000
Subject: [PATCH 37/64] fix: loading a step wrote its metallicity, RNG and
 track matcher into the shared step settings

---
 posydon/binary_evol/simulationproperties.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/posydon/binary_evol/simulationproperties.py b/posydon/binary_evol/simulationproperties.py
index 9039dc8..206fb08 100644
--- a/posydon/binary_evol/simulationproperties.py
+++ b/posydon/binary_evol/simulationproperties.py
@@ -494,9 +494,7 @@ class SimulationProperties:
         step_name : str
             Name of the pipeline step being checked.
         step_kwargs : dict
-            Keyword arguments for the step. This dictionary may be modified
-            in-place to include validated metallicity and/or a TrackMatcher
-            instance.
+            Keyword arguments for the step. This dictionary is not modified.
         verbose : bool, optional
             If True, print the keyword arguments used to construct the
             TrackMatcher.
@@ -521,6 +519,9 @@ class SimulationProperties:
         # in case we need to update a TrackMatcher for a step, this method only
         # cares about updating what it is told to, not everything.
         original_step_kwargs = step_kwargs.copy()
+        # work on a copy: the given settings (or the default of load_a_step)
+        # have to stay as they are for the next time this step is loaded
+        step_kwargs = step_kwargs.copy()
 
         # check/assign metallicity for the step
         if "metallicity" in step_func.DEFAULT_KWARGS:
-- 
2.43.0


From 4f4ee8987896373139830634202f6dc9db1de845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:52 +0000
Subject: [PATCH 38/64] fix: get_new_query_points changed its keyword arguments
 and their defaults

---
 posydon/active_learning/psy_cris/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/active_learning/psy_cris/utils.py b/posydon/active_learning/psy_cris/utils.py
index 04947a4..03988cc 100644
--- a/posydon/active_learning/psy_cris/utils.py
+++ b/posydon/active_learning/psy_cris/utils.py
@@ -135,6 +135,7 @@ def get_new_query_points(N_new_points=1, TableData_kwargs={},
                 pred_class[0:N_new_points])
 
     # Regressor
+    Regressor_kwargs = Regressor_kwargs.copy()
     if Regressor_kwargs.pop("do_regression", False):
         regr_obj = Regressor(table_obj)
         regr_obj.train_everything(**Regressor_kwargs)
@@ -146,7 +147,7 @@ def get_new_query_points(N_new_points=1, TableData_kwargs={},
 
     target_dist_name = Sampler_kwargs.get("target_dist", "TD_classification")
     target_dist_obj = getattr(sampler_obj, target_dist_name)
-    Sampler_kwargs['target_dist'] = target_dist_obj
+    Sampler_kwargs = {**Sampler_kwargs, 'target_dist': target_dist_obj}
 
     chain_step_history, T_list = sampler_obj.run_PTMCMC(**Sampler_kwargs)
     last_chain_hist = chain_step_history[len(T_list) - 1]
-- 
2.43.0


From 83bd7e9d4db9eaea83e03337046af4f68f84585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:52 +0000
Subject: [PATCH 39/64] fix: find_constraints_to_apply narrowed the module-wide
 CONSTRAINTS

---
 posydon/interpolation/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/interpolation/constraints.py b/posydon/interpolation/constraints.py
index 90d37ca..73fc4b8 100644
--- a/posydon/interpolation/constraints.py
+++ b/posydon/interpolation/constraints.py
@@ -438,7 +438,7 @@ def find_constraints_to_apply(out_keys):
             if len(new_fields) == 0:
                 should_apply = False
             else:
-                constraint["fields"] = new_fields
+                constraint = {**constraint, "fields": new_fields}
 
         elif constraint["type"] == 3:
 
-- 
2.43.0


From f0431565708bcfe43d76bc69abee33a2efa0062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:52 +0000
Subject: [PATCH 40/64] fix: calculate_cosmic_weights changed DEFAULT_SFH_MODEL
 for later calls

---
 posydon/popsyn/synthetic_population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 9657251..7ecef14 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -2085,7 +2085,7 @@ class TransientPopulation(Population):
             MODEL = DEFAULT_SFH_MODEL
         else:
             # write the DEFAULT_SFH_MODEL with updated parameters to MODEL.
-            MODEL = DEFAULT_SFH_MODEL
+            MODEL = DEFAULT_SFH_MODEL.copy()
             MODEL.update(MODEL_in)
 
         path_in_file = (
-- 
2.43.0


From 787d75b9e401ac8d21fece524e937b28ab928f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:52 +0000
Subject: [PATCH 41/64] fix: plot2D added new termination flags to the default
 markers of all plots

---
 posydon/visualization/plot2D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/visualization/plot2D.py b/posydon/visualization/plot2D.py
index 887011e..7a33ffe 100644
--- a/posydon/visualization/plot2D.py
+++ b/posydon/visualization/plot2D.py
@@ -765,10 +765,10 @@ class plot2D(object):
         """
         if MARKERS_COLORS_LEGENDS is None:
             self.MARKERS_COLORS_LEGENDS = DEFAULT_MARKERS_COLORS_LEGENDS[
-                termination_flag]
+                termination_flag].copy()
         else:
             self.MARKERS_COLORS_LEGENDS = MARKERS_COLORS_LEGENDS[
-                termination_flag]
+                termination_flag].copy()
 
     def update_values_to_plot(self, termination_flag):
         """Update all values to plot.
-- 
2.43.0


From f94f6a218b028f5d0ecd828f0f9d095995e68f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:52 +0000
Subject: [PATCH 42/64] fix: CompileData extended the default (or given) list
 of profile names

---
 posydon/interpolation/profile_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/interpolation/profile_interpolation.py b/posydon/interpolation/profile_interpolation.py
index e1bfa45..8b6d4eb 100644
--- a/posydon/interpolation/profile_interpolation.py
+++ b/posydon/interpolation/profile_interpolation.py
@@ -41,7 +41,7 @@ class CompileData:
             hms_s2 (Boolean) : option to get profiles of star 2 in HMS-HMS grid
             profile_names (array-like) : list of profile quantities to extract.
         """
-        self.names = profile_names
+        self.names = list(profile_names)
 
         # extract testing data
         print("extracting testing data")
-- 
2.43.0


From b31b3d5645e254c4c918e1f244cfe5bc4087dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:52 +0000
Subject: [PATCH 43/64] fix: generate_secondary_masses returned the primary
 masses themselves for q=1

---
 posydon/popsyn/independent_sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/independent_sample.py b/posydon/popsyn/independent_sample.py
index 16dd4f1..21f36e1 100644
--- a/posydon/popsyn/independent_sample.py
+++ b/posydon/popsyn/independent_sample.py
@@ -371,7 +371,7 @@ def generate_secondary_masses(primary_masses,
         secondary_masses = primary_masses * mass_ratios
 
     if secondary_mass_scheme == 'q=1':
-        secondary_masses = primary_masses
+        secondary_masses = np.array(primary_masses)
 
     return secondary_masses
 
-- 
2.43.0


From 3e1385c72aa73a1f05129ad1dbc3ab3f4b790c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:52 +0000
Subject: [PATCH 44/64] fix: PSyGrid.rerun extended the caller's list of runs

---
 posydon/grids/psygrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index 84f356b..5d3ee27 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -1827,7 +1827,7 @@ class PSyGrid:
 
         # check 'runs_to_rerun' has a valid type
         if isinstance(runs_to_rerun, list):
-            runs_to_rerun_list = runs_to_rerun
+            runs_to_rerun_list = runs_to_rerun.copy()
         elif runs_to_rerun is not None:
             try:
                 runs_to_rerun_list = list(runs_to_rerun)
-- 
2.43.0


From 6e96c6c6daf4a0a8f45ccc39042225e75881bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:52 +0000
Subject: [PATCH 45/64] fix: the cached Moe+17 generator kept the RNG of the
 first population

---
 posydon/popsyn/independent_sample.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/posydon/popsyn/independent_sample.py b/posydon/popsyn/independent_sample.py
index 21f36e1..1641c50 100644
--- a/posydon/popsyn/independent_sample.py
+++ b/posydon/popsyn/independent_sample.py
@@ -55,6 +55,8 @@ def generate_independent_samples(orbital_scheme='period', **kwargs):
         # initialize generator for Moe+17-PsandQs
         if _gen_Moe_17_PsandQs is None:
             _gen_Moe_17_PsandQs = Moe_17_PsandQs(**kwargs)
+        # draw with the random number generator of this population
+        _gen_Moe_17_PsandQs.RNG = kwargs.get('RNG', np.random.default_rng())
         # use same defaults as generate_primary_masses
         M1_min = kwargs.get("primary_mass_min", 7)
         M1_max = kwargs.get("primary_mass_max", 120)
-- 
2.43.0


From 547d8cbdd0bbcf4b6114927c6cbcd6002a3fddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:04 +0000
Subject: [PATCH 46/64] fix: combine_saved_files deleted the files it failed to
 merge

---
 posydon/popsyn/binarypopulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index e3a4600..ca50d45 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -556,6 +556,7 @@ class BinaryPopulation:
             simulated_mass_single = 0.0
             simulated_mass_binaries = 0.0
             number_of_systems=0
+            merged_files = []
 
             for f in file_names:
                 # strings itemsize set by first append max value,
@@ -585,6 +586,7 @@ class BinaryPopulation:
 
                     store.append('oneline', oneline,
                                  min_itemsize=oneline_min_itemsize)
+                    merged_files.append(f)
 
                 except Exception:
                     print(traceback.format_exc(), flush=True)
@@ -608,7 +610,7 @@ class BinaryPopulation:
             store.append('mass_per_metallicity', tmp_df)
 
         # only remove the files once they've been written to the new file
-        for f in file_names:
+        for f in merged_files:
             os.remove(f)
 
     def close(self):
-- 
2.43.0


From 33319335e96efb612d0985702b530c8ebfe6eaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:04 +0000
Subject: [PATCH 47/64] fix: a binary that cannot be converted to tables hid
 the tables of all others

---
 posydon/popsyn/binarypopulation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index ca50d45..51dc9a5 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -717,15 +717,18 @@ class PopulationManager:
 
         try:
             history = binary.to_df(**kwargs)
-            self.history_dfs.append(history)
             oneline = binary.to_oneline_df(**kwargs)
+            self.history_dfs.append(history)
             self.oneline_dfs.append(oneline)
-            self.remove(binary)
 
         except Exception as err:
             print("Error during breakdown of {0}:\n{1}".
                   format(str(binary), err))
 
+        # the tables are only saved if no binaries are left
+        if binary in self.binaries:
+            self.remove(binary)
+
     def to_df(self, selection_function=None, **kwargs):
         """Convert all binaries to dataframe."""
 
-- 
2.43.0


From fcc73848ae5f55328b36323339e3708a60e465d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:04 +0000
Subject: [PATCH 48/64] fix: PopulationManager.save hid errors, so that the
 unsaved results were dropped

---
 posydon/popsyn/binarypopulation.py | 35 +++++++++++++-----------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index 51dc9a5..feb32f2 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -923,30 +923,25 @@ class PopulationManager:
             store.append('history', history_df,
                          min_itemsize=history_min_itemsize)
 
-            try:
+            # split weight between single and binary stars
+            init_step_mask = ~history_df.index.duplicated(keep="first") # indices that are NOT duplicates of the first
+            singles_mask = history_df["state"] == "initially_single_star"
+            filtered_data_single = history_df[init_step_mask & singles_mask]
+            filtered_data_binaries = history_df[init_step_mask & ~singles_mask]
 
-                # split weight between single and binary stars
-                init_step_mask = ~history_df.index.duplicated(keep="first") # indices that are NOT duplicates of the first
-                singles_mask = history_df["state"] == "initially_single_star"
-                filtered_data_single = history_df[init_step_mask & singles_mask]
-                filtered_data_binaries = history_df[init_step_mask & ~singles_mask]
+            simulated_mass_binaries += np.nansum(filtered_data_binaries[["S1_mass", "S2_mass"]].to_numpy())
+            simulated_mass_single += np.nansum(filtered_data_single[["S1_mass"]].to_numpy())
+            simulated_mass = simulated_mass_single + simulated_mass_binaries
 
-                simulated_mass_binaries += np.nansum(filtered_data_binaries[["S1_mass", "S2_mass"]].to_numpy())
-                simulated_mass_single += np.nansum(filtered_data_single[["S1_mass"]].to_numpy())
-                simulated_mass = simulated_mass_single + simulated_mass_binaries
+            if 'metallicity' not in oneline_df.columns:
+                met_df = pd.DataFrame(data={'metallicity': [self.metallicity] * len(oneline_df)}, index=oneline_df.index)
+                oneline_df = pd.concat([oneline_df, met_df], axis=1)
 
-                if 'metallicity' not in oneline_df.columns:
-                    met_df = pd.DataFrame(data={'metallicity': [self.metallicity] * len(oneline_df)}, index=oneline_df.index)
-                    oneline_df = pd.concat([oneline_df, met_df], axis=1)
+            number_of_systems += len(oneline_df)
 
-                number_of_systems += len(oneline_df)
-
-                # store oneline
-                store.append('oneline', oneline_df,
-                             min_itemsize=oneline_min_itemsize)
-
-            except Exception:
-                print(traceback.format_exc(), flush=True)
+            # store oneline
+            store.append('oneline', oneline_df,
+                         min_itemsize=oneline_min_itemsize)
 
             # store population metadata
             tmp_df = pd.DataFrame()
-- 
2.43.0


From ce06dea6c95d948e7c84feb892811e538de563cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:04 +0000
Subject: [PATCH 49/64] fix: the step timeout was swallowed in the detached
 integration and the retry ran without a limit

---
 posydon/binary_evol/DT/step_detached.py | 4 +++-
 posydon/binary_evol/binarystar.py       | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 682056e..4658cb2 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -21,7 +21,7 @@ import pandas as pd
 from scipy.integrate import solve_ivp
 
 import posydon.utils.constants as const
-from posydon.binary_evol.binarystar import BINARYPROPERTIES
+from posydon.binary_evol.binarystar import BINARYPROPERTIES, StepTimeoutError
 from posydon.binary_evol.DT.gravitational_radiation.default_gravrad import (
     default_gravrad,
 )
@@ -506,6 +506,8 @@ class detached_step:
                             y0=[binary.separation, binary.eccentricity,
                                 secondary.omega0, primary.omega0],
                             dense_output=True)
+        except StepTimeoutError:
+            raise
         except Exception as e:
             if self.verbose:
                 print(f"RK45 failed with error {e}, trying with 'RK45' method.")
diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 53e61a2..9c24cab 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -121,9 +121,13 @@ BINARYPROPERTIES = [
 MAXIMUM_STEP_TIME = 120
 
 
+class StepTimeoutError(RuntimeError):
+    """A step took longer than MAXIMUM_STEP_TIME."""
+
+
 def signal_handler(signum, frame):
     """React to a maximum time signal."""
-    raise RuntimeError("Binary Step Exceeded Allotted Time: {}".
+    raise StepTimeoutError("Binary Step Exceeded Allotted Time: {}".
                     format(MAXIMUM_STEP_TIME))
 
 
-- 
2.43.0


From 715e6ff412f799eb35fcdb6464fda4ae5f45eace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:08 +0000
Subject: [PATCH 50/64] fix: plot_hist_properties normalised the weight columns
 of the caller's table in place

---
 posydon/visualization/plot_pop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/visualization/plot_pop.py b/posydon/visualization/plot_pop.py
index 6867938..5bb4034 100644
--- a/posydon/visualization/plot_pop.py
+++ b/posydon/visualization/plot_pop.py
@@ -128,7 +128,7 @@ def plot_hist_properties(df, ax=None, df_intrinsic=None, df_observable=None,
     if 'intrinsic' in df_columns:
         values =  df['intrinsic']
         if normalise:
-            values /= sum(values)
+            values = values / sum(values)
 
         ax.hist(df['property'],
                  weights=values,
@@ -141,7 +141,7 @@ def plot_hist_properties(df, ax=None, df_intrinsic=None, df_observable=None,
     if 'observable' in df_columns:
         values = df['observable']
         if normalise:
-            values /= sum(values)
+            values = values / sum(values)
 
         ax.hist(df['property'],
                  weights=values,
-- 
2.43.0


From 41547605841268c2eae57b10ef255f392f915590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:06 +0000
Subject: [PATCH 51/64] fix: partial envelope ejection in a merging single CE
 used unset variables

---
 posydon/binary_evol/CE/step_CEE.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/CE/step_CEE.py b/posydon/binary_evol/CE/step_CEE.py
index 036dc5f..a830819 100644
--- a/posydon/binary_evol/CE/step_CEE.py
+++ b/posydon/binary_evol/CE/step_CEE.py
@@ -1288,11 +1288,16 @@ class StepCEE(object):
                       const.Msun/(2. * separation_before_merger)
         E_orb_released_to_inner_RLOF = alpha_CE * (E_orb_initial - E_orb_final)
 
+        M_envelope_donor = m1_i  - mc1_i
+        M_envelope_companion = m2_i - mc2_i
+
         # We assume "lambda_from_profile_gravitational_plus_internal_minus_recombination"
         if not double_CE:
             Mejected_donor = \
                 calculate_Mejected_for_integrated_binding_energy(donor.profile,
                     E_orb_released_to_inner_RLOF, mc1_i, rc1_i, m1_i, radius1)
+            # the companion has no envelope that takes part in the CE
+            Mejected_comp = 0.0
 
         else: # in double_CE
 
@@ -1300,8 +1305,6 @@ class StepCEE(object):
             # ejection of each (common) envelope is the same as the ratio of
             # the initial envelope masses:
 
-            M_envelope_donor = m1_i  - mc1_i
-            M_envelope_companion = m2_i - mc2_i
             weight = M_envelope_donor / (M_envelope_donor + M_envelope_companion)
 
             Eorb_for_partial_ej_donor = E_orb_released_to_inner_RLOF * weight
-- 
2.43.0


From 6585fe53c06fc49c8d2445a038ca9a15617bec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:06 +0000
Subject: [PATCH 52/64] fix: Fryer12_delayed had no fallback for a CO core of
 exactly 11 Msun

---
 posydon/binary_evol/SN/step_SN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index f3a5bf2..d568d7c 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -1370,7 +1370,7 @@ class StepSN(object):
                 b = -11.0 * a + 1.0
                 f_fb = a * m_core + b
                 m_fb = f_fb * (m_collapsing - m_proto)
-            elif m_core > 11.0:
+            elif m_core >= 11.0:
                 f_fb = 1.0
                 m_fb = f_fb * (m_collapsing - m_proto)
             m_rembar = m_proto + m_fb
-- 
2.43.0


From db3204f8457f97c37a6f958ef2c35d5e0b294169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:06 +0000
Subject: [PATCH 53/64] fix: an unknown magnetic_braking_mode raised instead of
 disabling magnetic braking

---
 posydon/binary_evol/DT/step_detached.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 4658cb2..1ea020f 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -1384,8 +1384,10 @@ class detached_evolution:
                                                         self.verbose)
 
         else:
+            dOmega_mb_sec = 0.0
+            dOmega_mb_pri = 0.0
             Pwarn("WARNING: Magnetic braking is not being calculated in the "
-                "detached step. The given magnetic_braking_mode string ",
+                "detached step. The given magnetic_braking_mode string "
                 f"'{self.magnetic_braking_mode}' does not match the available "
                 "built-in cases. To enable magnetic braking, please set "
                 "magnetc_braking_mode to one of the following strings: "
-- 
2.43.0


From b35303a831be8b08dabb7aaaf59c87fb5e5a9280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:06 +0000
Subject: [PATCH 54/64] fix: verbose output of the ejecta used an unset
 variable

---
 posydon/binary_evol/SN/profile_collapse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/posydon/binary_evol/SN/profile_collapse.py b/posydon/binary_evol/SN/profile_collapse.py
index 23abc1b..79a91df 100644
--- a/posydon/binary_evol/SN/profile_collapse.py
+++ b/posydon/binary_evol/SN/profile_collapse.py
@@ -101,6 +101,7 @@ def get_ejecta_element_mass_at_collapse(star, compact_object_mass, verbose):
             Pwarn(f"Index out of bounds (i_rem = {i_rem} >= {len(dm_all)} = "
                   "len(dm_all)), cannot calculate ejected masses.",
                   'InappropriateValueWarning')
+            dm_ejected = np.array([])
             h1_mass_ej = 0.0
             he4_mass_ej = 0.0
 
-- 
2.43.0


From 01e8c3a9655074987a52ec185e23cc4d10753eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:06 +0000
Subject: [PATCH 55/64] fix: alternative matching of a star in an unsupported
 state used unset variables

---
 posydon/binary_evol/track_match.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/posydon/binary_evol/track_match.py b/posydon/binary_evol/track_match.py
index 9f47e91..0be086c 100644
--- a/posydon/binary_evol/track_match.py
+++ b/posydon/binary_evol/track_match.py
@@ -1208,6 +1208,9 @@ class TrackMatcher:
                     new_htrack = True
                     match_list = self.list_for_matching_postHeMS
 
+                else:
+                    raise ValueError(f"{star.state} invalid for matching step")
+
             else:
                 raise POSYDONError("In getting match attributes, match_type "
                         f"'{match_type}' is not a recognized option. Please "
-- 
2.43.0


From 92d0aa8b05484160220061d9cf1559c717882f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:06 +0000
Subject: [PATCH 56/64] fix: composition profiles of states without a model
 used unset variables

---
 posydon/interpolation/profile_interpolation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/posydon/interpolation/profile_interpolation.py b/posydon/interpolation/profile_interpolation.py
index 8b6d4eb..df0796f 100644
--- a/posydon/interpolation/profile_interpolation.py
+++ b/posydon/interpolation/profile_interpolation.py
@@ -808,6 +808,12 @@ class Composition:
             plus[int(b[2]*200):int(b[3]*200)] = f_plus(np.linspace(0,1,200)[int(b[2]*200):int(b[3]*200)])
             He = plus - H
 
+        else: # there is no model for this state -- return nans
+            Pwarn(f"no composition model available for {star_state}",
+                  "InappropriateValueWarning")
+            H = np.ones(200)*np.nan
+            He = np.ones(200)*np.nan
+
         return H, He
 
     def predict(self,inputs):
-- 
2.43.0


From f54e76a471dae89bfe84fc801504c8b48cba9810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:45 +0000
Subject: [PATCH 57/64] fix: the 1PN orbital decay lacked a mass ratio factor
 and had a wrong coefficient

---
 .../binary_evol/DT/gravitational_radiation/default_gravrad.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py b/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py
index 2008332..9c6b0f9 100644
--- a/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py
+++ b/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py
@@ -51,8 +51,8 @@ def default_gravrad(a, e, primary, secondary, verbose = False):
         * ((96 + 292 * e ** 2 + 37 * e ** 4) * (1 - e ** 2)
         - (1 / 28 * const.standard_cgrav * (m1 + m2) * const.msol
         / (a * const.rsol * const.clight ** 2))
-        * ((14008 + 4707 * v)+(80124 + 21560 * v) * e ** 2
-        + (17325 + 10458) * e ** 4 - 0.5 * (5501 - 1036 * v) * e ** 6))
+        * ((14008 + 4704 * v)+(80124 + 21560 * v) * e ** 2
+        + (17325 + 10458 * v) * e ** 4 - 0.5 * (5501 - 1036 * v) * e ** 6))
         ) * const.secyer / const.rsol
     # eq. (35) of Junker et al. 1992, 254, 146
 
-- 
2.43.0


From b05d1ac3e7ac9a7d99b759a3fa96b060c1d8fa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:45 +0000
Subject: [PATCH 58/64] fix: unit conversion of the Alfven radius in CARB
 magnetic braking

---
 posydon/binary_evol/DT/magnetic_braking/prescriptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
index 0900d8d..d1b5fff 100644
--- a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
+++ b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
@@ -349,7 +349,7 @@ def CARB_braking(primary, secondary, verbose = False):
         R_alfven_div_R3_sec = (
             R2**4 * rot_ratio_sec**4 * tau_ratio_sec**4
             / (mdot_2**2 * v_mod2_sec)
-            * (const.rsol**2 * const.secyer / const.msol**2))
+            * (const.rsol**2 * const.secyer**4 / const.msol**2))
     else:
         R_alfven_div_R3_sec = 0.0
 
@@ -357,7 +357,7 @@ def CARB_braking(primary, secondary, verbose = False):
         R_alfven_div_R3_pri = (
             R1**4 * rot_ratio_pri**4 * tau_ratio_pri**4
             / (mdot_1**2 * v_mod2_pri)
-            * (const.rsol**2 * const.secyer / const.msol**2))
+            * (const.rsol**2 * const.secyer**4 / const.msol**2))
     else:
         R_alfven_div_R3_pri = 0.0
 
-- 
2.43.0


From 01a4834e6be12a761bbecd85e0c1a2d7ee9bf307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:30 +0000
Subject: [PATCH 59/64] fix: output times of a detached step went past the end
 or failed for short steps

---
 posydon/binary_evol/DT/step_detached.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 1ea020f..1a565db 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -554,9 +554,8 @@ class detached_step:
         """
 
         if self.dt is not None and self.dt > 0:
-            t = np.arange(binary.time, self.res.t[-1] + self.dt/2.0, self.dt)[1:]
-            if t[-1] < self.res.t[-1]:
-                t = np.hstack([t, self.res.t[-1]])
+            t = np.arange(binary.time, self.res.t[-1], self.dt)[1:]
+            t = np.hstack([t[t < self.res.t[-1]], self.res.t[-1]])
         elif (self.n_o_steps_history is not None
                 and self.n_o_steps_history > 0):
             t_step = (self.res.t[-1] - binary.time) / self.n_o_steps_history
-- 
2.43.0


From 6b8ab24387e841a56c3d489b8cdb18030ece2f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:56 +0000
Subject: [PATCH 60/64] fix: mergers with a main-sequence star lost the burning
 luminosities of the evolved star

---
 posydon/binary_evol/DT/step_merged.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/DT/step_merged.py b/posydon/binary_evol/DT/step_merged.py
index 55e697d..dd2f026 100644
--- a/posydon/binary_evol/DT/step_merged.py
+++ b/posydon/binary_evol/DT/step_merged.py
@@ -289,11 +289,13 @@ class MergedStep(IsolatedStep):
                 merged_star.mass = star_base.mass + comp.mass
 
                 # Set parameters that are not expected to be meaningful after a merger to np.nan
+                # (merged_star is star_base, hence keep its burning luminosities first)
+                log_LHe, log_LZ = star_base.log_LHe, star_base.log_LZ
                 self._apply_nan_attributes(merged_star)
 
                 # Set burning luminosities and star state.
-                merged_star.log_LHe = star_base.log_LHe
-                merged_star.log_LZ = star_base.log_LZ
+                merged_star.log_LHe = log_LHe
+                merged_star.log_LZ = log_LZ
                 merged_star.state = check_state_of_star(merged_star, star_CO=False)  # TODO for sure this needs testing!
 
                 massless_remnant = convert_star_to_massless_remnant(comp)
@@ -316,11 +318,13 @@ class MergedStep(IsolatedStep):
                 merged_star.mass = star_base.mass + comp.mass
 
                 # Set parameters that are not expected to be meaningful after a merger to np.nan
+                # (merged_star is comp, hence keep its burning luminosities first)
+                log_LHe, log_LZ = comp.log_LHe, comp.log_LZ
                 self._apply_nan_attributes(merged_star)
 
                 # Set burning luminosities and star state.
-                merged_star.log_LHe = comp.log_LHe
-                merged_star.log_LZ = comp.log_LZ
+                merged_star.log_LHe = log_LHe
+                merged_star.log_LZ = log_LZ
                 merged_star.state = check_state_of_star(merged_star, star_CO=False)
 
                 massless_remnant = convert_star_to_massless_remnant(star_base)
-- 
2.43.0


From 4ce11b3c17f664c009de54e3c2ea53d58ab93d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:56 +0000
Subject: [PATCH 61/64] fix: surface mixing of merging He stars weighted with
 the mass of the merger product

---
 posydon/binary_evol/DT/step_merged.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/posydon/binary_evol/DT/step_merged.py b/posydon/binary_evol/DT/step_merged.py
index dd2f026..4952765 100644
--- a/posydon/binary_evol/DT/step_merged.py
+++ b/posydon/binary_evol/DT/step_merged.py
@@ -646,11 +646,6 @@ class MergedStep(IsolatedStep):
                 else:
                     Pwarn("Unexpected combination of CO core masses during merging", "EvolutionWarning")
 
-                # add total and core masses
-                for key in ["mass", "he_core_mass", "c_core_mass", "o_core_mass", "co_core_mass"]:
-                    current = getattr(star_base, key) + getattr(comp, key)
-                    setattr(merged_star, key,current)
-
                 # weigheted mixing on the surface abundances based on the He-rich envelopes of the two stars
                 additional_parameter_to_mix = ['surface_h1', 'surface_he4', 'surface_c12', 'surface_n14', 'surface_o16']
                 for abundance_name in additional_parameter_to_mix:
@@ -660,6 +655,11 @@ class MergedStep(IsolatedStep):
                                                                                 mass_weight1="He-rich_envelope_mass",
                                                                                 mass_weight2="He-rich_envelope_mass"))
 
+                # add total and core masses
+                for key in ["mass", "he_core_mass", "c_core_mass", "o_core_mass", "co_core_mass"]:
+                    current = getattr(star_base, key) + getattr(comp, key)
+                    setattr(merged_star, key,current)
+
                 # Set parameters that are not expected to be meaningful after a merger to np.nan
                 self._apply_nan_attributes(merged_star)
 
-- 
2.43.0


From 85be999c2cd158da18fcaccb7d031cba6a02fbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:00 +0000
Subject: [PATCH 62/64] fix: radius of the companion in a common envelope was
 matched for the wrong star

---
 posydon/binary_evol/CE/step_CEE.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/CE/step_CEE.py b/posydon/binary_evol/CE/step_CEE.py
index a830819..5f822fb 100644
--- a/posydon/binary_evol/CE/step_CEE.py
+++ b/posydon/binary_evol/CE/step_CEE.py
@@ -1457,8 +1457,10 @@ class StepCEE(object):
             t_i = binary.time
 
 
-            match_primary = False
-            match_secondary = True
+            # match the companion only, whichever role it has in the matching
+            primary, _, _ = self.track_matcher.determine_star_states(binary)
+            match_primary = comp_star is primary
+            match_secondary = not match_primary
 
             _, _, only_CO = self.track_matcher.do_matching(binary, step_name="step_CE",
                                                            match_primary=match_primary,
-- 
2.43.0


From 5bd413a8115bc8b1251f2a16615d26aaa4783cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:26 +0000
Subject: [PATCH 63/64] fix: density of orbital periods drawn from log-uniform
 separations lacked the separation

---
 posydon/popsyn/norm_pop.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/posydon/popsyn/norm_pop.py b/posydon/popsyn/norm_pop.py
index 915a95a..aba7158 100644
--- a/posydon/popsyn/norm_pop.py
+++ b/posydon/popsyn/norm_pop.py
@@ -204,10 +204,10 @@ def get_period_pdf(kwargs):
             # we need to do a change of variables.
             # PDF(P) = PDF(a) * |da/dP|
             # da/dP = (2/3) * (a/P)
-            # PDF(P) = (2/3) * log_uniform(log_a)
-            period_pdf = lambda P, m1, q: separation_log_uniform.pdf(
-                orbital_separation_from_period(P, m1, q*m1)
-            ) * 2./3.
+            # PDF(log P) = (2/3) * PDF(log a) = (2/3) * a * PDF(a)
+            def period_pdf(P, m1, q):
+                a = orbital_separation_from_period(P, m1, q*m1)
+                return separation_log_uniform.pdf(a) * a * 2./3.
         else:
             raise ValueError("Orbital separation scheme not recognized")
     else:
-- 
2.43.0


From e0d7d7c3caf9aadedfb21d96a4ea89b0294f9cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:26 +0000
Subject: [PATCH 64/64] fix: mean mass of a population integrated with the mass
 ratio limits of the extreme primaries

---
 posydon/popsyn/norm_pop.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/norm_pop.py b/posydon/popsyn/norm_pop.py
index aba7158..53a98b6 100644
--- a/posydon/popsyn/norm_pop.py
+++ b/posydon/popsyn/norm_pop.py
@@ -305,10 +305,21 @@ def get_mean_mass(params):
     if q_min > q_max:
         raise ValueError("q_min must be less than q_max")
 
+    # without given limits, the range of mass ratios depends on the primary mass
+    def q_lower(m):
+        if 'q_min' in params:
+            return params['q_min']
+        return max(params['secondary_mass_min']/m, 0)
+
+    def q_upper(m):
+        if 'q_max' in params:
+            return params['q_max']
+        return min(params['secondary_mass_max']/m, 1)
+
     # binary integration
     I_bin = dblquad(lambda q, m: (m + m * q) * PDF(m, q, P=0, binary=True),
                     m1_min, m1_max,
-                    q_min, q_max
+                    q_lower, q_upper
                     )[0]
 
 
-- 
2.43.0

