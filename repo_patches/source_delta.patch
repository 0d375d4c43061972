From 826ec43fe226c39e366ccc49015d2c56faeafd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:18 +0000
Subject: [PATCH 01/10] fix: do not convert the dimensionless mass scale to
 kilograms in scale_constants

---
 kerrgeopy/constants.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 46d018c..2b9d7bd 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -742,5 +742,4 @@ def scale_constants(constants, M, mu):
     -------
     tuple(double, double, double)
     """
-    M = mass_in_kg(M)
     return constants[0] * mu, constants[1] * mu * M, constants[2] * mu**2 * M**2
-- 
2.43.0


From 72f94bbb99016300592bbf0018cd8ae1219334c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:18 +0000
Subject: [PATCH 02/10] fix: call _r_frequency_from_constants with its two
 arguments

---
 kerrgeopy/frequencies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 9ecc96d..b5e7bef 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -630,7 +630,7 @@ def _phi_frequency_from_constants(
 
     # compute frequencies if they are not passed in
     if upsilon_r is None:
-        upsilon_r = _r_frequency_from_constants(a, constants, radial_roots)
+        upsilon_r = _r_frequency_from_constants(constants, radial_roots)
     if upsilon_theta is None:
         upsilon_theta = _theta_frequency_from_constants(a, constants, radial_roots, polar_roots)
 
@@ -710,7 +710,7 @@ def _gamma_from_constants(
 
     # compute frequencies if they are not passed in
     if upsilon_r is None:
-        upsilon_r = _r_frequency_from_constants(a, constants, radial_roots)
+        upsilon_r = _r_frequency_from_constants(constants, radial_roots)
     if upsilon_theta is None:
         upsilon_theta = _theta_frequency_from_constants(a, constants, radial_roots, polar_roots)
 
-- 
2.43.0


From 17aab9afbba2d7cc9113994986c16d2418ba25c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:18 +0000
Subject: [PATCH 03/10] fix: raise ValueError when the radial polynomial does
 not have 2 or 4 real roots

---
 kerrgeopy/constants.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 2b9d7bd..78c7d55 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -104,6 +104,9 @@ def plunging_radial_roots(a, E, L, Q):
         r1, r2 = real_roots
         r3, r4 = complex_roots
 
+    else:
+        raise ValueError("The radial polynomial must have two or four real roots")
+
     return r1, r2, r3, r4
 
 
-- 
2.43.0


From 7f93c97e05add3d2fa3967175e52fc1869b6f122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 04/10] fix: use the polar roots in trajectory_deltas of
 plunges with four real radial roots

---
 kerrgeopy/orbit.py  | 11 ++++++++++-
 kerrgeopy/plunge.py | 10 +++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 52b68f6..9f95cd9 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -11,6 +11,7 @@ from .constants import (
 from .frequencies import mino_frequencies, fundamental_frequencies
 from numpy import sin, cos, sqrt, pi
 import numpy as np
+from numpy.polynomial import Polynomial
 import matplotlib.pyplot as plt
 from mpl_toolkits.mplot3d.art3d import Line3DCollection
 from matplotlib.animation import FuncAnimation
@@ -155,9 +156,17 @@ class Orbit:
                 from .stable import radial_solutions, polar_solutions
 
                 constants = (self.E, self.L, self.Q)
+                # polar polynomial written in terms of z = cos^2(theta)
+                polar_roots = Polynomial(
+                    [
+                        self.Q,
+                        -(self.Q + self.a**2 * (1 - self.E**2) + self.L**2),
+                        self.a**2 * (1 - self.E**2),
+                    ]
+                ).roots()
                 r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
                 theta, t_theta, phi_theta = polar_solutions(
-                    self.a, constants, radial_roots
+                    self.a, constants, polar_roots
                 )
 
         return (
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 5c1b693..ab5c7aa 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -108,8 +108,16 @@ class PlungingOrbit(Orbit):
             theta, t_theta, phi_theta = plunging_polar_solutions(self.a, self.E, self.L, self.Q)
         else:
             constants = (self.E, self.L, self.Q)
+            # polar polynomial written in terms of z = cos^2(theta)
+            polar_roots = Polynomial(
+                [
+                    self.Q,
+                    -(self.Q + self.a**2 * (1 - self.E**2) + self.L**2),
+                    self.a**2 * (1 - self.E**2),
+                ]
+            ).roots()
             r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
-            theta, t_theta, phi_theta = polar_solutions(self.a, constants, radial_roots)
+            theta, t_theta, phi_theta = polar_solutions(self.a, constants, polar_roots)
 
         return (
             lambda q_r: t_r(q_r + q_r0),
-- 
2.43.0


From 928691588e00b1d79cb59284f3eb58664cb13d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 05/10] fix: compare the distance of each point with the event
 horizon in is_visible

---
 kerrgeopy/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 9f95cd9..49c7da9 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -594,7 +594,7 @@ class Orbit:
         return (
             (normal_component >= 0)
             | (np.linalg.norm(projection, axis=1) > event_horizon)
-        ) & (np.linalg.norm(points) > event_horizon)
+        ) & (np.linalg.norm(points, axis=1) > event_horizon)
 
     def animate(
         self,
-- 
2.43.0


From 98a874b1e1dcbdc6f3d3974e4484d9512623347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 06/10] fix: keep the initial polar phase of equatorial orbits

---
 kerrgeopy/initial_conditions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 946ac94..60d9ddc 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -255,9 +255,9 @@ def stable_orbit_initial_phases(
         # Fujita and Hikida equation 36
         if dtheta0 < 0:
             q_theta0 = lambda_theta0 * upsilon_theta + 3 * pi / 2
-        if (dtheta0 == 0) & (theta0 == pi / 2):
+        elif (dtheta0 == 0) & (theta0 == pi / 2):
             q_theta0 = 0  # special case for equatorial orbits
-        if dtheta0 >= 0:
+        else:
             q_theta0 = pi / 2 - lambda_theta0 * upsilon_theta
 
     q_t0 = t0
@@ -364,9 +364,9 @@ def plunging_orbit_initial_phases(
 
         if dtheta0 < 0:
             q_theta0 = lambda_theta0 * upsilon_theta + 3 * pi / 2
-        if (dtheta0 == 0) & (theta0 == pi / 2):
+        elif (dtheta0 == 0) & (theta0 == pi / 2):
             q_theta0 = 0  # special case for equatorial orbits
-        if dtheta0 >= 0:
+        else:
             q_theta0 = pi / 2 - lambda_theta0 * upsilon_theta
 
         q_phi0 = phi0
-- 
2.43.0


From a63edb836f40b2f247db5d6c4577990c9d9bd5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 07/10] fix: detect marginally bound orbits by their energy in
 _gamma_from_constants

---
 kerrgeopy/frequencies.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index b5e7bef..def1c16 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -693,13 +693,11 @@ def _gamma_from_constants(
     r1, r2, r3, r4 = radial_roots
     z_minus, z_plus = polar_roots
 
-    e = (r1 - r2) / (r1 + r2)
+    E, L, Q = constants
     # marginally bound case
-    if e == 1:
+    if E == 1:
         return inf
 
-    E, L, Q = constants
-
     epsilon0 = a**2 * (1 - E**2) / L**2
     # simplified form of a**2*sqrt(z_plus/epsilon0)
     a2sqrt_zp_over_e0 = (
-- 
2.43.0


From d51a80863425a87c6e73fb1697f8c6385fecf59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 08/10] fix: compute the initial polar phase of Schwarzschild
 and retrograde orbits correctly

---
 kerrgeopy/initial_conditions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 60d9ddc..56720d1 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -200,7 +200,8 @@ def stable_orbit_initial_phases(
         )
         radial_roots = R.roots()
         # numpy returns roots in increasing order
-        r4, r3, r2, r1 = radial_roots
+        radial_roots = radial_roots[::-1]
+        r1, r2, r3, r4 = radial_roots
     else:
         r1, r2, r3, r4 = radial_roots
 
@@ -245,12 +246,14 @@ def stable_orbit_initial_phases(
                 a, constants, radial_roots, polar_roots
             )
 
-        k_theta = sqrt(z_minus / z_plus)
+        k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
         y_theta = cos(theta0) / sqrt(z_minus)
         e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
 
         # Fujita and Hikida equation 37
-        lambda_theta0 = 1 / (L * sqrt(e0zp)) * ellipkinc(arcsin(y_theta), k_theta**2)
+        lambda_theta0 = 1 / (abs(L) * sqrt(e0zp)) * ellipkinc(arcsin(y_theta), k_theta**2)
+        # the sign of upsilon_theta carries the orientation of retrograde orbits
+        upsilon_theta = abs(upsilon_theta)
 
         # Fujita and Hikida equation 36
         if dtheta0 < 0:
-- 
2.43.0


From 62e31ddae120fd870b7fbbbf4385b03f0db7c6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 09/10] fix: apply the spin sign convention in
 stable_trajectory

---
 kerrgeopy/stable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 4aa7ce3..73486b7 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -500,6 +500,7 @@ def stable_trajectory(
     if ((distance_units != "natural") or (time_units != "natural")) and M is None:
         raise ValueError("M must be specified to convert to physical units")
 
+    a, x = _standardize_params(a, x)
     upsilon_r, upsilon_theta, upsilon_phi, gamma = mino_frequencies(a, p, e, x)
     constants = constants_of_motion(a, p, e, x)
     radial_roots = stable_radial_roots(a, p, e, x, constants)
-- 
2.43.0


From 5db519467671eab444daa33fbc33dd66a4b9f24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 10/10] fix: accept a non-integer tail length in animate

---
 kerrgeopy/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 49c7da9..2cb3952 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -803,7 +803,7 @@ class Orbit:
                 pbar.update(1)
 
                 j = speed_multiplier * i
-                j0 = max(0, j - tail_length * point_density)
+                j0 = max(0, int(j - tail_length * point_density))
                 current_time = time[j]
 
                 # update camera angles
-- 
2.43.0

