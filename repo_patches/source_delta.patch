From 725d0857bfaa99c459732564bf22995d82fdd10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:54 +0000
Subject: [PATCH 01/11] fix: make solver runs repeatable by resetting per-run
 state

---
 .../steady_horseshoe_vortex_lattice_method.py |  4 +++
 .../steady_ring_vortex_lattice_method.py      |  5 ++++
 .../unsteady_ring_vortex_lattice_method.py    | 25 +++++++++++++++++++
 3 files changed, 34 insertions(+)

diff --git a/pterasoftware/steady_horseshoe_vortex_lattice_method.py b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
index 597273b..66a0584 100644
--- a/pterasoftware/steady_horseshoe_vortex_lattice_method.py
+++ b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
@@ -196,6 +196,10 @@ class SteadyHorseshoeVortexLatticeMethodSolver:
 
         :return: None
         """
+        # Clear the seed points so that they aren't duplicated if this solver has been
+        # run before.
+        self.seed_points = np.empty((0, 3))
+
         # Initialize a variable to hold the global position of the panel as we
         # iterate through them.
         global_panel_position = 0
diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index d392b07..f798f0d 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -260,6 +260,11 @@ class SteadyRingVortexLatticeMethodSolver:
 
         :return: None
         """
+        # Reset the seed points and the unit vortex strengths, which are used to find
+        # the influence coefficients, in case this solver has been run before.
+        self.seed_points = np.empty((0, 3))
+        self.vortex_strengths = np.ones(self.num_panels)
+
         # Initialize a variable to hold the global position of the panel as we
         # iterate through them.
         global_panel_position = 0
diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index 5f48792..48666c5 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -205,6 +205,16 @@ class UnsteadyRingVortexLatticeMethodSolver:
         )
         logging.basicConfig(level=logging_level_value)
 
+        # Empty the lists of pre-allocated wake arrays in case this solver has been run
+        # before.
+        self.num_wake_ring_vortices_list = []
+        self.wake_ring_vortex_strengths_list = []
+        self.wake_ring_vortex_ages_list = []
+        self.wake_ring_vortex_front_right_vertices_list = []
+        self.wake_ring_vortex_front_left_vertices_list = []
+        self.wake_ring_vortex_back_left_vertices_list = []
+        self.wake_ring_vortex_back_right_vertices_list = []
+
         # The following loop iterates through the steps to populate currently empty
         # attributes with lists of pre-allocated arrays. During the simulation,
         # these arrays will be filled with data that describe the wake. Using this
@@ -1598,6 +1608,21 @@ class UnsteadyRingVortexLatticeMethodSolver:
         # Determine if this problem's geometry is static or variable.
         is_static = self.unsteady_problem.max_period == 0
 
+        # Empty the problem's lists of results so that they only contain this run's
+        # results.
+        self.unsteady_problem.final_near_field_forces_wind_axes = []
+        self.unsteady_problem.final_near_field_force_coefficients_wind_axes = []
+        self.unsteady_problem.final_near_field_moments_wind_axes = []
+        self.unsteady_problem.final_near_field_moment_coefficients_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_forces_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_force_coefficients_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_moments_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_moment_coefficients_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_forces_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_force_coefficients_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_moments_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_moment_coefficients_wind_axes = []
+
         # Initialize matrices to hold the forces, moments, and coefficients at each of
         # the time steps that has results.
         total_near_field_forces_wind_axes = np.zeros(
-- 
2.43.0


From 6e400693d6d7a5a4ab4c81227eaff64e11426318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 02/11] fix: count the force on side legs shared by two ring
 vortices once

---
 pterasoftware/steady_ring_vortex_lattice_method.py   | 10 ++++++++--
 pterasoftware/unsteady_ring_vortex_lattice_method.py | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index f798f0d..333281b 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -502,10 +502,13 @@ class SteadyRingVortexLatticeMethodSolver:
                         # to the difference between this panel's ring vortex's
                         # strength, and the ring vortex strength of the panel to the
                         # right of it.
+                        # Only half of this difference is attributed to this panel as
+                        # the leg is shared with the panel to its right, which carries
+                        # the other half.
                         effective_right_vortex_line_strengths[global_panel_position] = (
                             self.vortex_strengths[global_panel_position]
                             - panel_to_right.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Check if this panel is on its wing's leading edge.
                     if panel.is_leading_edge:
@@ -551,10 +554,13 @@ class SteadyRingVortexLatticeMethodSolver:
                         # Change the effective left vortex line strength from zero to
                         # the difference between this panel's ring vortex's strength,
                         # and the ring vortex strength of the panel to the left of it.
+                        # Only half of this difference is attributed to this panel as
+                        # the leg is shared with the panel to its left, which carries
+                        # the other half.
                         effective_left_vortex_line_strengths[global_panel_position] = (
                             self.vortex_strengths[global_panel_position]
                             - panel_to_left.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Increment the global panel position.
                     global_panel_position += 1
diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index 48666c5..210add1 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -916,10 +916,13 @@ class UnsteadyRingVortexLatticeMethodSolver:
                         # to the difference between this panel's ring vortex's
                         # strength, and the ring vortex strength of the panel to the
                         # right of it.
+                        # Only half of this difference is attributed to this panel as
+                        # the leg is shared with the panel to its right, which carries
+                        # the other half.
                         effective_right_vortex_line_strengths[global_panel_position] = (
                             self.current_vortex_strengths[global_panel_position]
                             - panel_to_right.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Check if this panel is on its wing's leading edge.
                     if panel.is_leading_edge:
@@ -965,10 +968,13 @@ class UnsteadyRingVortexLatticeMethodSolver:
                         # Change the effective left vortex line strength from zero to
                         # the difference between this panel's ring vortex's strength,
                         # and the ring vortex strength of the panel to the left of it.
+                        # Only half of this difference is attributed to this panel as
+                        # the leg is shared with the panel to its left, which carries
+                        # the other half.
                         effective_left_vortex_line_strengths[global_panel_position] = (
                             self.current_vortex_strengths[global_panel_position]
                             - panel_to_left.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Increment the global panel position.
                     global_panel_position += 1
-- 
2.43.0


From 53c3f492f37a373b07f5d58ef6ea9e98850f3adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:04 +0000
Subject: [PATCH 03/11] fix: keep the viscosity and external thrust of a moving
 operating point

---
 pterasoftware/movement.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 8ba9b6e..d081178 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -1332,6 +1332,8 @@ class OperatingPointMovement:
         density = self.base_operating_point.density
         alpha = self.base_operating_point.alpha
         beta = self.base_operating_point.beta
+        external_thrust = self.base_operating_point.external_thrust
+        nu = self.base_operating_point.nu
 
         # Iterate through the time steps.
         for step in range(num_steps):
@@ -1340,7 +1342,12 @@ class OperatingPointMovement:
 
             # Make a new operating point object for this time step.
             this_operating_point = operating_point.OperatingPoint(
-                density=density, velocity=velocity, alpha=alpha, beta=beta
+                density=density,
+                velocity=velocity,
+                alpha=alpha,
+                beta=beta,
+                external_thrust=external_thrust,
+                nu=nu,
             )
 
             # Add this new object to the list of operating points.
-- 
2.43.0


From 7abd863dcb4c8bf8835453fc24578d10553a7e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:04 +0000
Subject: [PATCH 04/11] fix: keep the weight and the wing planes and directions
 of moving airplanes

---
 pterasoftware/movement.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index d081178..7cad48e 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -426,8 +426,9 @@ class AirplaneMovement:
         # Create an empty list of airplanes.
         airplanes = []
 
-        # Generate the airplane name.
+        # Generate the non-changing airplane attributes.
         name = self.base_airplane.name
+        weight = self.base_airplane.weight
 
         # Iterate through the time steps.
         for step in range(num_steps):
@@ -439,7 +440,12 @@ class AirplaneMovement:
 
             # Make a new airplane object for this time step.
             this_airplane = geometry.Airplane(
-                name=name, x_ref=x_ref, y_ref=y_ref, z_ref=z_ref, wings=these_wings
+                name=name,
+                x_ref=x_ref,
+                y_ref=y_ref,
+                z_ref=z_ref,
+                weight=weight,
+                wings=these_wings,
             )
 
             # Add this new object to the list of airplanes.
@@ -781,7 +787,9 @@ class WingMovement:
 
         # Generate the non-changing wing attributes.
         name = self.base_wing.name
+        unit_normal_vector = self.base_wing.unit_normal_vector
         symmetric = self.base_wing.symmetric
+        unit_chordwise_vector = self.base_wing.unit_chordwise_vector
         num_chordwise_panels = self.base_wing.num_chordwise_panels
         chordwise_spacing = self.base_wing.chordwise_spacing
 
@@ -801,7 +809,9 @@ class WingMovement:
                 y_le=y_le,
                 z_le=z_le,
                 wing_cross_sections=cross_sections,
+                unit_normal_vector=unit_normal_vector,
                 symmetric=symmetric,
+                unit_chordwise_vector=unit_chordwise_vector,
                 num_chordwise_panels=num_chordwise_panels,
                 chordwise_spacing=chordwise_spacing,
             )
@@ -1185,6 +1195,7 @@ class WingCrossSectionMovement:
 
         # Generate the non-changing wing cross section attributes.
         chord = self.base_wing_cross_section.chord
+        unit_normal_vector = self.base_wing_cross_section.unit_normal_vector
         airfoil = self.base_wing_cross_section.airfoil
         control_surface_deflection = self.control_surface_deflection_base
         control_surface_type = self.base_wing_cross_section.control_surface_type
@@ -1208,6 +1219,7 @@ class WingCrossSectionMovement:
                 y_le=y_le,
                 z_le=z_le,
                 chord=chord,
+                unit_normal_vector=unit_normal_vector,
                 twist=twist,
                 airfoil=airfoil,
                 control_surface_type=control_surface_type,
-- 
2.43.0


From 400ea2a82eac09bd4ce3f4242a297576a98d99c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:04 +0000
Subject: [PATCH 05/11] fix: keep the base spacing of moving wing cross
 sections

---
 pterasoftware/movement.py | 89 +++++++++++++++++++--------------------
 1 file changed, 44 insertions(+), 45 deletions(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 7cad48e..e0247a2 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -722,38 +722,35 @@ class WingMovement:
                     last_y_les.append(last_wing_cross_section.y_le)
                     last_z_les.append(last_wing_cross_section.z_le)
 
+                # Find the vector from the inner base wing cross section's leading edge
+                # to this base wing cross section's leading edge.
+                last_base_wing_cross_section = self.wing_cross_section_movements[
+                    wing_cross_section_movement_location - 1
+                ].base_wing_cross_section
+                delta_x_le = this_x_le - last_base_wing_cross_section.x_le
+                delta_y_le = this_y_le - last_base_wing_cross_section.y_le
+                delta_z_le = this_z_le - last_base_wing_cross_section.z_le
+
                 # Find the span between this wing cross section and the inner wing
                 # cross section.
                 wing_cross_section_span = np.sqrt(
-                    (this_x_le - last_x_les[0]) ** 2
-                    + (this_y_le - last_y_les[0]) ** 2
-                    + (this_z_le - last_z_les[0]) ** 2
+                    delta_x_le**2 + delta_y_le**2 + delta_z_le**2
                 )
 
-                if this_y_le != last_y_les[0]:
-                    # Find the base sweep angle of this wing cross section compared
-                    # to the inner wing cross section at the first time step.
-                    base_wing_cross_section_sweep = (
-                        np.arctan(
-                            (this_z_le - last_z_les[0]) / (this_y_le - last_y_les[0])
-                        )
-                        * 180
-                        / np.pi
-                    )
-
-                    # Find the base heave angle of this wing cross section compared
-                    # to the inner wing cross section at the first time step.
-                    base_wing_cross_section_heave = (
-                        np.arctan(
-                            (this_x_le - last_x_les[0]) / (this_y_le - last_y_les[0])
-                        )
-                        * 180
-                        / np.pi
-                    )
-                else:
-                    base_wing_cross_section_sweep = 0.0
-                    base_wing_cross_section_heave = 0.0
-                    wing_is_vertical = True
+                # Find the base sweep and heave angles of this wing cross section
+                # compared to the inner base wing cross section. These are the angles
+                # of the spherical coordinate transformation that is used to find
+                # this wing cross section's position at each time step.
+                base_wing_cross_section_sweep = (
+                    np.arctan2(delta_z_le, np.sqrt(delta_x_le**2 + delta_y_le**2))
+                    * 180
+                    / np.pi
+                )
+                base_wing_cross_section_heave = (
+                    np.arctan2(delta_x_le, delta_y_le) * 180 / np.pi
+                )
+
+                wing_is_vertical = delta_y_le == 0
 
             # Generate this wing cross section's vector of wing cross sections at
             # each time step based on its movement.
@@ -1168,28 +1165,30 @@ class WingCrossSectionMovement:
             raise Exception("Bad value of heaving_spacing!")
 
         if wing_is_vertical:
-            x_le_list = np.ones(num_steps) * self.x_le_base
-            y_le_list = np.ones(num_steps) * self.y_le_base
-            z_le_list = np.ones(num_steps) * self.z_le_base
+
+            # A vertical section doesn't sweep, pitch, or heave relative to its inner
+            # wing cross section.
+            sweeping_list = np.ones(num_steps) * cross_section_sweep
+            heaving_list = np.ones(num_steps) * cross_section_heave
             twist_list = np.ones(num_steps) * self.twist_base
         else:
-
-            # Find the list of new leading edge points. This uses a spherical
-            # coordinate transformation, referencing the previous wing cross
-            # section's leading edge point (at each time step) as the origin. Also
-            # convert the lists of sweep, pitch, and heave values to radians before
-            # passing them into numpy's trigonometry functions.
-            x_le_list = last_x_les + cross_section_span * np.cos(
-                sweeping_list * np.pi / 180
-            ) * np.sin(heaving_list * np.pi / 180)
-            y_le_list = last_y_les + cross_section_span * np.cos(
-                sweeping_list * np.pi / 180
-            ) * np.cos(heaving_list * np.pi / 180)
-            z_le_list = last_z_les + cross_section_span * np.sin(
-                sweeping_list * np.pi / 180
-            )
             twist_list = pitching_list
 
+        # Find the list of new leading edge points. This uses a spherical coordinate
+        # transformation, referencing the previous wing cross section's leading edge
+        # point (at each time step) as the origin. Also convert the lists of sweep,
+        # pitch, and heave values to radians before passing them into numpy's
+        # trigonometry functions.
+        x_le_list = last_x_les + cross_section_span * np.cos(
+            sweeping_list * np.pi / 180
+        ) * np.sin(heaving_list * np.pi / 180)
+        y_le_list = last_y_les + cross_section_span * np.cos(
+            sweeping_list * np.pi / 180
+        ) * np.cos(heaving_list * np.pi / 180)
+        z_le_list = last_z_les + cross_section_span * np.sin(
+            sweeping_list * np.pi / 180
+        )
+
         # Create an empty list of wing cross sections.
         wing_cross_sections = []
 
-- 
2.43.0


From ac533bf23d14343e2fc058d9a0ea274eb1920dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:04 +0000
Subject: [PATCH 06/11] fix: keep the wing planes and directions in convergence
 trials

---
 pterasoftware/convergence.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index 9d8bdea..5f7f292 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -218,6 +218,7 @@ def analyze_steady_convergence(
                                 y_le=ref_wing_cross_section.y_le,
                                 z_le=ref_wing_cross_section.z_le,
                                 chord=ref_wing_cross_section.chord,
+                                unit_normal_vector=ref_wing_cross_section.unit_normal_vector,
                                 twist=ref_wing_cross_section.twist,
                                 control_surface_type=ref_wing_cross_section.control_surface_type,
                                 control_surface_hinge_point=ref_wing_cross_section.control_surface_hinge_point,
@@ -241,7 +242,9 @@ def analyze_steady_convergence(
                             x_le=ref_wing.x_le,
                             y_le=ref_wing.y_le,
                             z_le=ref_wing.z_le,
+                            unit_normal_vector=ref_wing.unit_normal_vector,
                             symmetric=ref_wing.symmetric,
+                            unit_chordwise_vector=ref_wing.unit_chordwise_vector,
                             chordwise_spacing=ref_wing.chordwise_spacing,
                             # These values change.
                             num_chordwise_panels=num_chordwise_panels,
@@ -806,6 +809,7 @@ def analyze_unsteady_convergence(
                                     y_le=ref_base_wing_cross_section.y_le,
                                     z_le=ref_base_wing_cross_section.z_le,
                                     chord=ref_base_wing_cross_section.chord,
+                                    unit_normal_vector=ref_base_wing_cross_section.unit_normal_vector,
                                     twist=ref_base_wing_cross_section.twist,
                                     control_surface_type=ref_base_wing_cross_section.control_surface_type,
                                     control_surface_hinge_point=ref_base_wing_cross_section.control_surface_hinge_point,
@@ -861,7 +865,9 @@ def analyze_unsteady_convergence(
                                 x_le=ref_base_wing.x_le,
                                 y_le=ref_base_wing.y_le,
                                 z_le=ref_base_wing.z_le,
+                                unit_normal_vector=ref_base_wing.unit_normal_vector,
                                 symmetric=ref_base_wing.symmetric,
+                                unit_chordwise_vector=ref_base_wing.unit_chordwise_vector,
                                 chordwise_spacing=ref_base_wing.chordwise_spacing,
                                 # These values change.
                                 num_chordwise_panels=num_chordwise_panels,
-- 
2.43.0


From d60edca41076165015ff2e42f67574ff081c5743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 07/11] fix: give every section at least one spanwise panel in
 convergence trials

---
 pterasoftware/convergence.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index 5f7f292..bdc5343 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -204,8 +204,10 @@ def analyze_steady_convergence(
                                 / (section_standard_mean_chord * panel_aspect_ratio)
                             )
 
-                            this_num_spanwise_panels = math.ceil(
-                                this_num_spanwise_panels
+                            # Every wing section must have at least one spanwise
+                            # panel.
+                            this_num_spanwise_panels = max(
+                                1, math.ceil(this_num_spanwise_panels)
                             )
                         else:
                             this_num_spanwise_panels = 0
@@ -781,8 +783,10 @@ def analyze_unsteady_convergence(
                                         )
                                     )
 
-                                    this_num_spanwise_panels = math.ceil(
-                                        this_num_spanwise_panels
+                                    # Every wing section must have at least one
+                                    # spanwise panel.
+                                    this_num_spanwise_panels = max(
+                                        1, math.ceil(this_num_spanwise_panels)
                                     )
                                 else:
                                     this_num_spanwise_panels = 0
-- 
2.43.0


From 39873c839f0dd535a32fdeb33680cde18b47cd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 08/11] fix: measure section lengths along the wing's own
 spanwise direction in convergence trials

---
 pterasoftware/convergence.py | 39 ++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index bdc5343..e1b26b4 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -184,17 +184,18 @@ def analyze_steady_convergence(
                             next_ref_wing_cross_section = ref_wing_cross_sections[
                                 ref_wing_cross_section_id + 1
                             ]
-                            # ToDo: Modify this to allow for new geometry with custom
-                            #  planes for the wing cross sections. As of now,
-                            #  it fails for vertical wings.
-                            section_length = (
-                                next_ref_wing_cross_section.y_le
-                                - ref_wing_cross_section.y_le
+                            # Find the section's length along the wing's spanwise
+                            # direction, which is normal to its symmetry plane.
+                            section_length = abs(
+                                np.dot(
+                                    next_ref_wing_cross_section.leading_edge
+                                    - ref_wing_cross_section.leading_edge,
+                                    ref_wing.unit_normal_vector,
+                                )
                             )
                             root_chord = ref_wing_cross_section.chord
                             tip_chord = next_ref_wing_cross_section.chord
-                            section_area = section_length * (root_chord + tip_chord) / 2
-                            section_standard_mean_chord = section_area / section_length
+                            section_standard_mean_chord = (root_chord + tip_chord) / 2
 
                             # As we can't directly specify the panel aspect ratio,
                             # calculate the number of spanwise panels that
@@ -759,21 +760,21 @@ def analyze_unsteady_convergence(
                                             ref_wing_cross_section_movement_id + 1
                                         ].base_wing_cross_section
                                     )
-                                    # ToDo: Modify this to allow for new geometry
-                                    #  with custom planes for the wing cross
-                                    #  sections. As of now, it fails for vertical wings.
-                                    section_length = (
-                                        next_ref_base_wing_cross_section.y_le
-                                        - ref_base_wing_cross_section.y_le
+                                    # Find the section's length along the wing's
+                                    # spanwise direction, which is normal to its
+                                    # symmetry plane.
+                                    section_length = abs(
+                                        np.dot(
+                                            next_ref_base_wing_cross_section.leading_edge
+                                            - ref_base_wing_cross_section.leading_edge,
+                                            ref_base_wing.unit_normal_vector,
+                                        )
                                     )
                                     root_chord = ref_base_wing_cross_section.chord
                                     tip_chord = next_ref_base_wing_cross_section.chord
-                                    section_area = (
-                                        section_length * (root_chord + tip_chord) / 2
-                                    )
                                     section_standard_mean_chord = (
-                                        section_area / section_length
-                                    )
+                                        root_chord + tip_chord
+                                    ) / 2
 
                                     this_num_spanwise_panels = round(
                                         (section_length * num_chordwise_panels)
-- 
2.43.0


From 77b8a062215e12871fb7a51a881319ad92c66926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:05 +0000
Subject: [PATCH 09/11] fix: read the results that unsteady problems provide in
 the unsteady trim search

---
 pterasoftware/trim.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pterasoftware/trim.py b/pterasoftware/trim.py
index d4e6bb9..6a6095c 100644
--- a/pterasoftware/trim.py
+++ b/pterasoftware/trim.py
@@ -283,12 +283,22 @@ def analyze_unsteady_trim(
 
         this_solver.run(logging_level="Critical")
 
-        force_coefficients = (
-            this_solver.unsteady_problem.final_total_near_field_force_coefficients_wind_axes
-        )
-        moment_coefficients = (
-            this_solver.unsteady_problem.final_total_near_field_moment_coefficients_wind_axes
-        )
+        # If the movement is static, use the final coefficients. Otherwise, use the
+        # final cycle-averaged coefficients. There is only one airplane.
+        if this_problem.max_period == 0:
+            force_coefficients = (
+                this_problem.final_near_field_force_coefficients_wind_axes[0]
+            )
+            moment_coefficients = (
+                this_problem.final_near_field_moment_coefficients_wind_axes[0]
+            )
+        else:
+            force_coefficients = (
+                this_problem.final_mean_near_field_force_coefficients_wind_axes[0]
+            )
+            moment_coefficients = (
+                this_problem.final_mean_near_field_moment_coefficients_wind_axes[0]
+            )
 
         net_force_coefficients = np.linalg.norm(
             force_coefficients - external_force_coefficients
-- 
2.43.0


From 36377143f8159c0e84e00c312478bc1b837ebeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:05 +0000
Subject: [PATCH 10/11] fix: print the final loads of static unsteady problems

---
 pterasoftware/output.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index 23baf45..bd6603b 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -979,14 +979,26 @@ def print_unsteady_results(unsteady_solver):
         This is the solver object with the results to be printed.
     :return: None
     """
-    forces = unsteady_solver.unsteady_problem.final_mean_near_field_forces_wind_axes
-    moments = unsteady_solver.unsteady_problem.final_mean_near_field_moments_wind_axes
-    force_coefficients = (
-        unsteady_solver.unsteady_problem.final_mean_near_field_force_coefficients_wind_axes
-    )
-    moment_coefficients = (
-        unsteady_solver.unsteady_problem.final_mean_near_field_moment_coefficients_wind_axes
-    )
+    this_problem = unsteady_solver.unsteady_problem
+
+    # Static problems have the loads at the final time step instead of cycle-averaged
+    # loads.
+    if this_problem.max_period == 0:
+        forces = this_problem.final_near_field_forces_wind_axes
+        moments = this_problem.final_near_field_moments_wind_axes
+        force_coefficients = this_problem.final_near_field_force_coefficients_wind_axes
+        moment_coefficients = (
+            this_problem.final_near_field_moment_coefficients_wind_axes
+        )
+    else:
+        forces = this_problem.final_mean_near_field_forces_wind_axes
+        moments = this_problem.final_mean_near_field_moments_wind_axes
+        force_coefficients = (
+            this_problem.final_mean_near_field_force_coefficients_wind_axes
+        )
+        moment_coefficients = (
+            this_problem.final_mean_near_field_moment_coefficients_wind_axes
+        )
 
     # For each airplane object, calculate and print the average force, moment,
     # force coefficient, and moment coefficient values.
-- 
2.43.0


From 83226a744a614f2cdd5514bbf05e4f384ed75247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:20 +0000
Subject: [PATCH 11/11] fix: keep the camber line of airfoils whose flap
 reaches ahead of the leading edge

---
 pterasoftware/geometry.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index 7ed0784..0bde342 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -16,6 +16,7 @@ This module contains the following functions:
     None
 """
 
+import copy
 import importlib.resources
 
 import matplotlib.pyplot as plt
@@ -1184,9 +1185,18 @@ class Airfoil:
         lower_coordinates = new_mcl_coordinates - new_upper_minus_mcl
         coordinates = np.vstack((upper_coordinates, lower_coordinates[1:, :]))
 
-        # Initialize the new, flapped airfoil and return it.
-        flapped_airfoil = Airfoil(
-            name=self.name + " flapped", coordinates=coordinates, repanel=False
+        # Initialize the new, flapped airfoil and return it. Its mean camber line is
+        # set directly, as the flap may reach further forward than the leading edge,
+        # in which case it can't be recovered from the outline.
+        flapped_airfoil = copy.copy(self)
+        flapped_airfoil.name = self.name + " flapped"
+        flapped_airfoil.coordinates = coordinates
+        flapped_airfoil.repanel = False
+        flapped_airfoil.n_points_per_side = 400
+        flapped_airfoil.mcl_coordinates = new_mcl_coordinates
+        flapped_airfoil.upper_minus_mcl = new_upper_minus_mcl
+        flapped_airfoil.thickness = np.column_stack(
+            (new_mcl_coordinates[:, 0], self.thickness[:, 1])
         )
         return flapped_airfoil
 
-- 
2.43.0

