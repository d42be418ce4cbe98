From 0d4f774cb742dcb3959813d28ebad79e2af46164 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:32 +0000
Subject: [PATCH 01/15] fix: make the configuration dataclasses importable on
 Python 3.11+

numpy arrays as dataclass defaults are rejected since Python 3.11 (and were
shared between instances before), so runner.container and runner.cli could not
be imported.
---
 pySailingVLM/runner/container.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pySailingVLM/runner/container.py b/pySailingVLM/runner/container.py
index 869bc71..3fe02e2 100644
--- a/pySailingVLM/runner/container.py
+++ b/pySailingVLM/runner/container.py
@@ -67,10 +67,10 @@ class Rig:
 class MainSail:
     centerline_twist_deg: np.ndarray = None
     
-    girths: np.ndarray = np.array([0.00, 1./8, 1./4, 1./2, 3./4, 7./8, 1.00])
-    chords: np.ndarray = np.array([4.00, 3.82, 3.64, 3.20, 2.64, 2.32, 2.00])
-    camber: np.ndarray = 5*np.array([0.01, 0.01, 0.01, 0.01, 0.01, 0.01, 0.01])
-    camber_distance_from_luff: np.ndarray = np.array([0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5]) # starting from leading edge
+    girths: np.ndarray = field(default_factory=lambda: np.array([0.00, 1./8, 1./4, 1./2, 3./4, 7./8, 1.00]))
+    chords: np.ndarray = field(default_factory=lambda: np.array([4.00, 3.82, 3.64, 3.20, 2.64, 2.32, 2.00]))
+    camber: np.ndarray = field(default_factory=lambda: 5*np.array([0.01, 0.01, 0.01, 0.01, 0.01, 0.01, 0.01]))
+    camber_distance_from_luff: np.ndarray = field(default_factory=lambda: np.array([0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5])) # starting from leading edge
     
     def __post_init__(self):
         if self.centerline_twist_deg is None:
@@ -80,10 +80,10 @@ class MainSail:
 class JibSail:
     centerline_twist_deg: np.ndarray = None
     
-    girths: np.ndarray = np.array([0.00, 1./4, 1./2, 3./4, 1.00])
-    chords: np.ndarray =np.array([3.80, 2.98, 2.15, 1.33, 0.5])
-    camber: np.ndarray = 0*np.array([0.01, 0.01, 0.01, 0.01, 0.01])
-    camber_distance_from_luff: np.ndarray = np.array([0.5, 0.5, 0.5, 0.5, 0.5]) # starting from leading edge   
+    girths: np.ndarray = field(default_factory=lambda: np.array([0.00, 1./4, 1./2, 3./4, 1.00]))
+    chords: np.ndarray = field(default_factory=lambda: np.array([3.80, 2.98, 2.15, 1.33, 0.5]))
+    camber: np.ndarray = field(default_factory=lambda: 0*np.array([0.01, 0.01, 0.01, 0.01, 0.01]))
+    camber_distance_from_luff: np.ndarray = field(default_factory=lambda: np.array([0.5, 0.5, 0.5, 0.5, 0.5])) # starting from leading edge   
     def __post_init__(self):
         if self.centerline_twist_deg is None:
             self.centerline_twist_deg = 15. * self.girths + 7
@@ -103,7 +103,7 @@ class JibSail:
 # heeling_reference [m] - distance from the water level,  at which the heeling moment is calculated.
 @dataclass
 class Csys:
-    reference_level_for_moments: np.ndarray =  np.array([0, 0, 0])  # [yaw_reference, sway_reference, heeling_reference]
+    reference_level_for_moments: np.ndarray = field(default_factory=lambda: np.array([0, 0, 0]))  # [yaw_reference, sway_reference, heeling_reference]
 
 
 # GEOMETRY OF THE KEEL
@@ -111,4 +111,4 @@ class Csys:
 # reminder: the z coord shall be negative (under the water)
 @dataclass
 class Keel:
-    center_of_lateral_resistance_upright: np.ndarray =  np.array([0, 0, -1.0])  # [m] the coordinates for a yacht standing in upright position
+    center_of_lateral_resistance_upright: np.ndarray = field(default_factory=lambda: np.array([0, 0, -1.0]))  # [m] the coordinates for a yacht standing in upright position
-- 
2.43.0


From b42ab140224d052c282d93ebf36a2948ab8050fc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 02/15] fix: apply the selected LLT_twist mode

The twist picked from twist_dict was overwritten with the real twist, so
'sheeting_angle_const' and 'average_const' had no effect.
---
 pySailingVLM/yacht_geometry/sail_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/yacht_geometry/sail_geometry.py b/pySailingVLM/yacht_geometry/sail_geometry.py
index 44e0f87..a79c7d1 100644
--- a/pySailingVLM/yacht_geometry/sail_geometry.py
+++ b/pySailingVLM/yacht_geometry/sail_geometry.py
@@ -125,7 +125,7 @@ class SailGeometry(BaseGeometry, ABC):
                 'real_twist': initial_sail_twist_deg
             }
             sail_twist_deg = twist_dict[LLT_twist]
-            sail_twist_deg = np.hstack([initial_sail_twist_deg] * (sh1))
+            sail_twist_deg = np.hstack([sail_twist_deg] * (sh1))
             sail_twist_deg = sail_twist_deg.reshape(sh1, sh0).transpose().flatten()
 
             p2 = mesh[::sh1][-1]
-- 
2.43.0


From 1cc82f3ccd0ddaef0cba39e32bd9cdf17a2d23af Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 03/15] fix: mirror the camber position in the underwater image

The underwater sections run head to tack, and chords and camber were flipped
accordingly, but the distance of maximum camber from the luff was not, so the
image was no mirror when that distance varied along the luff.
---
 pySailingVLM/yacht_geometry/sail_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/yacht_geometry/sail_geometry.py b/pySailingVLM/yacht_geometry/sail_geometry.py
index a79c7d1..353d6fa 100644
--- a/pySailingVLM/yacht_geometry/sail_geometry.py
+++ b/pySailingVLM/yacht_geometry/sail_geometry.py
@@ -89,7 +89,7 @@ class SailGeometry(BaseGeometry, ABC):
         sh0, sh1, sh2 = mesh.shape
         mesh = mesh.reshape(sh0*sh1, sh2)
         
-        mesh_underwater = make_airfoil_mesh([le_SW_underwater, le_NW_underwater],[self.__n_chordwise, self.__n_spanwise],fchords_vec, interpolated_distance_from_luff, np.flip(interpolated_camber))
+        mesh_underwater = make_airfoil_mesh([le_SW_underwater, le_NW_underwater],[self.__n_chordwise, self.__n_spanwise],fchords_vec, np.flip(interpolated_distance_from_luff), np.flip(interpolated_camber))
         ### zero mesh
         zero_mesh_under = np.swapaxes(mesh_underwater, 0, 1)
         panels_under_zero, _, _= make_panels_from_mesh_spanwise(zero_mesh_under)
-- 
2.43.0


From 156d0cb9aaa0d8770a8ec4678d70d68e95c6dc9d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 04/15] fix: load variables.py from the directory given with
 --dvars

The directory was appended to sys.path, so a variables.py in the current
directory was used instead of the requested one.
---
 pySailingVLM/runner/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index 8cd596d..a5f811e 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -17,7 +17,7 @@ from pySailingVLM.solver.coefs import get_data_for_coeff_plot
 
 def load_variable_module(args):
     try:
-        sys.path.append(args.dvars)
+        sys.path.insert(0, args.dvars)
         globals()['vr'] = __import__('variables')
     except ImportError as e:
         print(f'No variables.py file found in {args.dvars}\n{e}')
-- 
2.43.0


From 90b2e7fb34dc6cfef42cfb68b235abcf6a4d3739 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 05/15] fix: plot the lift data in the section lift plot and
 the drag data in the drag plot

---
 pySailingVLM/runner/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index a5f811e..51a94e7 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -89,6 +89,6 @@ def main():
     plot_cp(sail_set.zero_mesh, myvlm.p_coeffs, out.name)
     
     mean_cp, cl_data, cd_data = get_data_for_coeff_plot(myvlm, solver)
-    plot_section_coeff(cd_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
-    plot_section_coeff(cl_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
+    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
+    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
     
\ No newline at end of file
-- 
2.43.0


From edb1d44067d731081e1869e089d5b6fd4620f62c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 06/15] fix: report the lift coefficient of the free wing along
 its lift axis

The wing spans the z axis, so the z force taken as lift was always about zero
while the real lift acts along y.
---
 pySailingVLM/runner/aircraft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySailingVLM/runner/aircraft.py b/pySailingVLM/runner/aircraft.py
index 1de797e..cc9d334 100644
--- a/pySailingVLM/runner/aircraft.py
+++ b/pySailingVLM/runner/aircraft.py
@@ -66,7 +66,8 @@ class Aircraft:
         self.__force, _, _ = calc_force_wrapper(self.__V_app_infw, self.__gamma_magnitude, self.rho, cp, rings, self.n_spanwise, normals, span_vectors, trailing_edge_info, leading_edge_info, 'force_xyz', self.gamma_orientation)
         self.__pressure = calc_pressure(self.__force, normals, areas)
 
-        self.__CL, self.__CD = get_vlm_CL_CD_free_wing(self.__force, self.V, self.rho, self.__S)
+        # the wing lies in the x-z plane: drag acts along x, lift along y
+        self.__CD, self.__CL, _ = get_vlm_Cxyz(self.__force, self.V, self.rho, self.__S)
 
         total_p = np.sum(self.__pressure, axis=0)
         q = 0.5 * rho * (np.linalg.norm(self.V) ** 2) * self.__S
-- 
2.43.0


From 8ced0012c772ea66cdf740e6b65cfe937f0df690 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 07/15] fix: check the parameters of the exponential wind
 profile

The check compared with a misspelled profile name and never fired.
---
 pySailingVLM/runner/sail.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/sail.py b/pySailingVLM/runner/sail.py
index 28d131c..90a133c 100644
--- a/pySailingVLM/runner/sail.py
+++ b/pySailingVLM/runner/sail.py
@@ -46,8 +46,8 @@ class Wind:
         try: 
             if self.conditions.wind_profile == 'logarithmic' and None in [self.conditions.roughness, self.conditions.wind_reference_measurment_height]:
                 raise ValueError("ERROR in logarithmic mode!: Roughness or wind_reference_measurment_height badly defined!")
-            elif self.conditions.wind_profile == 'expotentional' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
-                raise ValueError("ERROR in expotentional mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
+            elif self.conditions.wind_profile == 'exponential' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
+                raise ValueError("ERROR in exponential mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
             elif self.conditions.wind_profile == 'flat' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
                 raise ValueError("ERROR in flat mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
         except ValueError as err:
-- 
2.43.0


From a0a56208acff7d73ac839745dc04e41628d0e102 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 08/15] fix: refuse an unknown wind profile

Any misspelled profile name was silently computed as a logarithmic one.
---
 pySailingVLM/runner/sail.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySailingVLM/runner/sail.py b/pySailingVLM/runner/sail.py
index 90a133c..e916a44 100644
--- a/pySailingVLM/runner/sail.py
+++ b/pySailingVLM/runner/sail.py
@@ -44,7 +44,9 @@ class Wind:
     
     def __post_init__(self):
         try: 
-            if self.conditions.wind_profile == 'logarithmic' and None in [self.conditions.roughness, self.conditions.wind_reference_measurment_height]:
+            if self.conditions.wind_profile not in ('exponential', 'flat', 'logarithmic'):
+                raise ValueError(f"ERROR: unknown wind_profile '{self.conditions.wind_profile}', allowed: 'exponential' or 'flat' or 'logarithmic'")
+            elif self.conditions.wind_profile == 'logarithmic' and None in [self.conditions.roughness, self.conditions.wind_reference_measurment_height]:
                 raise ValueError("ERROR in logarithmic mode!: Roughness or wind_reference_measurment_height badly defined!")
             elif self.conditions.wind_profile == 'exponential' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
                 raise ValueError("ERROR in exponential mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
-- 
2.43.0


From 0e239b4c4161b21d33f64c5db36e973336ecc0d8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 09/15] fix: report the finite sail apparent wind angle in the
 right quadrant

arctan of the ratio folds every angle into +-90 deg, so running courses were
reported 180 deg off (the infinite sail angle already uses arctan2).
---
 pySailingVLM/results/inviscid_flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/results/inviscid_flow.py b/pySailingVLM/results/inviscid_flow.py
index c223b38..05068bc 100644
--- a/pySailingVLM/results/inviscid_flow.py
+++ b/pySailingVLM/results/inviscid_flow.py
@@ -24,7 +24,7 @@ class InviscidFlowResults:
         self.V_induced_length = np.linalg.norm(self.V_induced_at_cp, axis=1)
         self.V_app_fs_at_cp = myvlm.V_app_fs_at_cp#V_app_fs
         self.V_app_fs_length = np.linalg.norm(self.V_app_fs_at_cp, axis=1)
-        self.AWA_app_fs = np.arctan(myvlm.V_app_fs_at_cp[:, 1] / myvlm.V_app_fs_at_cp[:, 0])
+        self.AWA_app_fs = np.arctan2(myvlm.V_app_fs_at_cp[:, 1], myvlm.V_app_fs_at_cp[:, 0])
   
         self.F_xyz = myvlm.force
         self.F_xyz_above_water, self.F_xyz_total = extract_above_water_quantities(self.F_xyz)
-- 
2.43.0


From ff4c0468ce5ee25aa3245f01b6e46c888dc38a56 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 10/15] fix: take the keel moment about the same reference
 point as the sail moments

The sail moments are about reference_level_for_moments but the keel estimate was
about the origin, so their sum (M_total) was wrong for a shifted reference.
---
 pySailingVLM/results/inviscid_flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/results/inviscid_flow.py b/pySailingVLM/results/inviscid_flow.py
index 05068bc..1338080 100644
--- a/pySailingVLM/results/inviscid_flow.py
+++ b/pySailingVLM/results/inviscid_flow.py
@@ -102,7 +102,7 @@ class InviscidFlowResults:
         self.M_total_above_water_in_centerline_csys = M_total_above_water_in_centerline_csys
 
     def estimate_heeling_moment_from_keel(self, underwater_centre_of_effort_xyz):
-        self.M_xyz_underwater_estimate_total = np.cross(underwater_centre_of_effort_xyz, -self.F_xyz_total)
+        self.M_xyz_underwater_estimate_total = np.cross(underwater_centre_of_effort_xyz - self.csys_transformations.v_from_original_xyz_2_reference_csys_xyz, -self.F_xyz_total)
         self.M_centerline_csys_underwater_estimate_total = self.csys_transformations.from_xyz_to_centerline_csys([self.M_xyz_underwater_estimate_total])[0]
 
     def __iter__(self):
-- 
2.43.0


From 4e9f58360732574698d76e3a0081d3c147b8c67b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 11/15] fix: draw the centre of effort where the sails are

With a shifted reference_level_for_moments the centre of effort was drawn in the
shifted coordinates over panels drawn in the original ones.
---
 pySailingVLM/solver/panels_plotter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySailingVLM/solver/panels_plotter.py b/pySailingVLM/solver/panels_plotter.py
index ee058b8..1561b66 100644
--- a/pySailingVLM/solver/panels_plotter.py
+++ b/pySailingVLM/solver/panels_plotter.py
@@ -297,7 +297,9 @@ def display_CE_CLR(ax : plt.Axes,
 
     scale = 0.8*np.mean(inviscid_flow_results.V_app_fs_length)  # ~10 gives nice plot
     clr = hull.center_of_lateral_resistance
-    ce = inviscid_flow_results.above_water_centre_of_effort_estimate_xyz
+    # centre of effort is expressed in the shifted csys, the plot is in the original one
+    ce = inviscid_flow_results.above_water_centre_of_effort_estimate_xyz \
+        + inviscid_flow_results.csys_transformations.v_from_original_xyz_2_reference_csys_xyz
 
     F = scale * normalize(inviscid_flow_results.F_xyz_total)
     plot_vector(ce, F)
-- 
2.43.0


From 5fc1746737b077a1dc3ae40aba96a34d0c2cdc2f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 12/15] fix: compute the variables file of the given directory
 and no other

---
 pySailingVLM/runner/cli.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index 51a94e7..98f390f 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -2,6 +2,7 @@ import numpy as np
 import sys
 import os
 import argparse
+import importlib.util
 import shutil
 
 from pySailingVLM.rotations.csys_transformations import CSYS_transformations
@@ -18,8 +19,12 @@ from pySailingVLM.solver.coefs import get_data_for_coeff_plot
 def load_variable_module(args):
     try:
         sys.path.insert(0, args.dvars)
-        globals()['vr'] = __import__('variables')
-    except ImportError as e:
+        # only the file in dvars: a 'variables' module found elsewhere on sys.path is another case
+        spec = importlib.util.spec_from_file_location('variables', os.path.join(args.dvars, 'variables.py'))
+        module = importlib.util.module_from_spec(spec)
+        spec.loader.exec_module(module)
+        globals()['vr'] = module
+    except (ImportError, OSError) as e:
         print(f'No variables.py file found in {args.dvars}\n{e}')
         sys.exit(0)
     
-- 
2.43.0


From 9f7eeb3ff7463cdf212020e6859ceb0cc42e59b7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 13/15] fix: let the results be kept beside the case file

---
 pySailingVLM/runner/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index 98f390f..7752866 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -83,7 +83,10 @@ def main():
           f"\tNumber of panels (sail sail_set with mirror): {sail_set.panels.shape}")
 
     df_components, df_integrals, df_inlet_IC = save_results_to_file(myvlm, csys_transformations, inviscid_flow_results, sail_set, out.name, out.file_name)
-    shutil.copy(os.path.join(out.case_dir, out.case_name), os.path.join(out.name, out.case_name))
+    try:
+        shutil.copy(os.path.join(out.case_dir, out.case_name), os.path.join(out.name, out.case_name))
+    except shutil.SameFileError:
+        pass  # the results are kept beside the case file
 
     print(df_integrals)
     #print(f"\nCPU time: {float(timeit.default_timer() - start):.2f} [s]")
-- 
2.43.0


From bd421f68c7277744cb9be539c7a5939e0168ebc9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:32 +0000
Subject: [PATCH 14/15] fix: name the main sail in the section plots of a yacht
 with a main sail only

---
 pySailingVLM/runner/cli.py            | 5 +++--
 pySailingVLM/solver/panels_plotter.py | 5 ++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index 7752866..f5d6ed6 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -97,6 +97,7 @@ def main():
     plot_cp(sail_set.zero_mesh, myvlm.p_coeffs, out.name)
     
     mean_cp, cl_data, cd_data = get_data_for_coeff_plot(myvlm, solver)
-    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
-    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
+    sail_labels = ['main'] if rig.sails_def == 'main' else ['jib', 'main']
+    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'], sail_labels)
+    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'], sail_labels)
     
\ No newline at end of file
diff --git a/pySailingVLM/solver/panels_plotter.py b/pySailingVLM/solver/panels_plotter.py
index 1561b66..c4d4347 100644
--- a/pySailingVLM/solver/panels_plotter.py
+++ b/pySailingVLM/solver/panels_plotter.py
@@ -371,7 +371,7 @@ def plot_cp(mesh : np.ndarray, p_coeffs : np.ndarray, path_to_save : str):
     except NameError:
         hv.save(hvpolys, path_to_save + '/cp_plot.html', backend='bokeh')
         
-def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name: str, colors : list):
+def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name: str, colors : list, labels=('jib', 'main')):
     
     allowed_names = ('lift', 'drag')
     try:
@@ -386,7 +386,6 @@ def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name:
     ax1 = fig.add_subplot(111)
     
     l = len(y_data)
-    lbs = ['jib', 'main']
     markers = ["o", "^"]
     
     c_name = 'cl'
@@ -396,7 +395,7 @@ def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name:
         str_latex = '$c_d$'
         
     for i in range(l):
-        ax1.scatter(x_data[i], y_data[i], label=lbs[i], s=5, marker=markers[i], color=colors[i])
+        ax1.scatter(x_data[i], y_data[i], label=labels[i], s=5, marker=markers[i], color=colors[i])
 
     plt.ylabel('Height [m]')
     plt.xlabel(fr'Section {str_latex}')
-- 
2.43.0


From 4f5cc5811ad926391bf6814697d36a8d69b96290 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:19 +0000
Subject: [PATCH 15/15] fix: apparent wind angle of a wind from the other side
 of the boat

---
 pySailingVLM/inlet/winds.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/pySailingVLM/inlet/winds.py b/pySailingVLM/inlet/winds.py
index b3ce3f0..b8dd840 100644
--- a/pySailingVLM/inlet/winds.py
+++ b/pySailingVLM/inlet/winds.py
@@ -39,16 +39,8 @@ class WindBase:
         # alfa_app_infs	- angle between apparent wind and direction of boat movement (including leeway)
         # (model of an 'infinite sail' is assumed == without induced wind velocity) and direction of boat movement (including leeway)
 
-        tws_l = np.linalg.norm(tws_at_h)  # true wind speed - length of the vector
-        # tws_l = np.sqrt(tws_at_h[0]*tws_at_h[0]+tws_at_h[1]*tws_at_h[1])  # true wind speed
-
-        alfa_yacht = np.arccos((self.V_yacht * np.cos(self.alpha_true_wind) + tws_l) /
-                               np.sqrt(
-                                   self.V_yacht*self.V_yacht
-                                   + 2*self.V_yacht*tws_l*np.cos(self.alpha_true_wind)
-                                   + tws_l*tws_l))  # result in [rad]
-
-        alpha_app_infs = self.alpha_true_wind - alfa_yacht  # result in [rad]
+        aw_infs = self.get_app_infs_at_h(tws_at_h)
+        alpha_app_infs = np.arctan2(aw_infs[1], aw_infs[0])  # result in [rad]
 
         return alpha_app_infs
 
-- 
2.43.0

