From a02670487ad6ee3162595300088bf6e081323be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 01/40] fix: do not convert M to kg in scale_constants

scale_constants is used with M = 1 to scale (E,L,Q) by the mass ratio before the
units module converts them with M in solar masses, so converting M again made L
and Q in mks/cgs wrong by factors of 2e30 and 4e60.
---
 kerrgeopy/constants.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 46d018c..2b9d7bd 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -742,5 +742,4 @@ def scale_constants(constants, M, mu):
     -------
     tuple(double, double, double)
     """
-    M = mass_in_kg(M)
     return constants[0] * mu, constants[1] * mu * M, constants[2] * mu**2 * M**2
-- 
2.43.0


From a3eee7864b68b6a7608f210c50a24a0cd394940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 02/40] fix: pass the polar roots to polar_solutions in
 trajectory_deltas

For plunging orbits with four real radial roots PlungingOrbit.trajectory_deltas and
Orbit.trajectory_deltas passed the radial roots instead and raised ValueError.
---
 kerrgeopy/constants.py | 29 +++++++++++++++++++++++++++++
 kerrgeopy/orbit.py     |  4 +++-
 kerrgeopy/plunge.py    |  4 +++-
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 2b9d7bd..c1abdec 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -440,6 +440,35 @@ def constants_of_motion(a, p, e, x):
     return E, L, Q
 
 
+def _polar_roots_from_constants(a, E, L, Q):
+    r"""Computes the roots :math:`z_- \leq z_+` of the polar polynomial
+    written in terms of :math:`z = \cos^2\theta` from the constants of motion.
+
+    Parameters
+    ----------
+    a : double
+        spin parameter
+    E : double
+        dimensionless energy
+    L : double
+        dimensionless angular momentum
+    Q : double
+        dimensionless Carter constant
+
+    Returns
+    -------
+    tuple(double, double)
+        tuple of roots :math:`(z_-, z_+)`
+    """
+    # beta*z^2 - (Q + beta + L^2)*z + Q = 0, written so that nothing cancels when beta is small
+    beta = a**2 * (1 - E**2)
+    beta_z_plus = (Q + beta + L**2 + sqrt((Q - beta) ** 2 + L**2 * (L**2 + 2 * Q + 2 * beta))) / 2
+    z_minus = Q / beta_z_plus
+    z_plus = nan if a == 0 else beta_z_plus / beta
+
+    return z_minus, z_plus
+
+
 def apex_from_constants(a, E, L, Q):
     r"""Computes the orbital parameters :math:`(a,p,e,x)` for a 
     stable bound orbit with the given constants of motion
diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 52b68f6..dc4c4a2 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -5,6 +5,7 @@ from .units import *
 from .constants import (
     scale_constants,
     apex_from_constants,
+    _polar_roots_from_constants,
     stable_polar_roots,
     stable_radial_roots,
 )
@@ -155,9 +156,10 @@ class Orbit:
                 from .stable import radial_solutions, polar_solutions
 
                 constants = (self.E, self.L, self.Q)
+                polar_roots = _polar_roots_from_constants(self.a, self.E, self.L, self.Q)
                 r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
                 theta, t_theta, phi_theta = polar_solutions(
-                    self.a, constants, radial_roots
+                    self.a, constants, polar_roots
                 )
 
         return (
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 5c1b693..cb9de90 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -3,6 +3,7 @@ from numpy import sqrt, arctan, arctan2, arccos, log, pi
 from numpy.polynomial import Polynomial
 import numpy as np
 from scipy.special import ellipj, ellipeinc, ellipk
+from .constants import _polar_roots_from_constants
 from .frequencies import _mino_frequencies_from_constants, _ellippiinc
 from .stable import *
 from .orbit import Orbit
@@ -108,8 +109,9 @@ class PlungingOrbit(Orbit):
             theta, t_theta, phi_theta = plunging_polar_solutions(self.a, self.E, self.L, self.Q)
         else:
             constants = (self.E, self.L, self.Q)
+            polar_roots = _polar_roots_from_constants(self.a, self.E, self.L, self.Q)
             r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
-            theta, t_theta, phi_theta = polar_solutions(self.a, constants, radial_roots)
+            theta, t_theta, phi_theta = polar_solutions(self.a, constants, polar_roots)
 
         return (
             lambda q_r: t_r(q_r + q_r0),
-- 
2.43.0


From b82e931cf55585867c74d3a97f055fd59dac9bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 03/40] fix: compute the polar roots without cancellation for
 small spin

For a < 1e-4 the larger root z_+ ~ 1/a^2 made Polynomial.roots lose z_-: the inclination
from apex_from_constants and the phases from stable_orbit_initial_phases were wrong
(1e-5 at a = 1e-5) and for a < 1e-7 StableOrbit.from_constants and Orbit raised
'Polar orbits not supported'.
---
 kerrgeopy/constants.py          | 7 +------
 kerrgeopy/initial_conditions.py | 8 ++------
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index c1abdec..26c6839 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -503,12 +503,7 @@ def apex_from_constants(a, E, L, Q):
     # numpy returns roots in increasing order
     r4, r3, r2, r1 = radial_roots
 
-    # polar polynomial written in terms of z = cos^2(theta)
-    Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-    polar_roots = Z.roots()
-    if a == 0:
-        polar_roots = [polar_roots[0], polar_roots[0]]
-    z_minus, z_plus = polar_roots
+    z_minus, z_plus = _polar_roots_from_constants(a, E, L, Q)
 
     p = 2 * r1 * r2 / (r1 + r2)
     e = (r1 - r2) / (r1 + r2)
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 946ac94..18e2434 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -4,7 +4,7 @@ from .frequencies import (
     _theta_frequency_from_constants,
     plunging_mino_frequencies,
 )
-from .constants import plunging_radial_roots
+from .constants import plunging_radial_roots, _polar_roots_from_constants
 import numpy as np
 from numpy import sin, cos, sqrt, pi, arcsin, arccos
 from numpy.polynomial import Polynomial
@@ -180,11 +180,7 @@ def stable_orbit_initial_phases(
         constants = constants_from_initial_conditions(a, initial_position, initial_velocity)
     E, L, Q = constants
 
-    # polar polynomial written in terms of z = cos^2(theta)
-    Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-    polar_roots = Z.roots()
-    if a == 0:
-        polar_roots = [polar_roots[0], polar_roots[0]]
+    polar_roots = _polar_roots_from_constants(a, E, L, Q)
     z_minus, z_plus = polar_roots
 
     # recompute radial roots if they are not passed in
-- 
2.43.0


From f42dfdb566225c53880fe27d40394a050a8e16f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 04/40] fix: compute the polar phase of Schwarzschild orbits in
 stable_orbit_initial_phases

For a = 0 the roots were passed in increasing order to _theta_frequency_from_constants and
k_theta was not 0, so Orbit(0, ...) returned NaN for every inclined orbit.
---
 kerrgeopy/initial_conditions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 18e2434..b669d62 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -197,6 +197,7 @@ def stable_orbit_initial_phases(
         radial_roots = R.roots()
         # numpy returns roots in increasing order
         r4, r3, r2, r1 = radial_roots
+        radial_roots = r1, r2, r3, r4
     else:
         r1, r2, r3, r4 = radial_roots
 
@@ -241,7 +242,7 @@ def stable_orbit_initial_phases(
                 a, constants, radial_roots, polar_roots
             )
 
-        k_theta = sqrt(z_minus / z_plus)
+        k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
         y_theta = cos(theta0) / sqrt(z_minus)
         e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
 
-- 
2.43.0


From 21bffac10a94fa27c1fff62b3370d283037ebbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 05/40] fix: make the initial polar phase independent of the
 sign of upsilon_theta

stable_orbit_initial_phases was right for retrograde orbits only with the negative value of
upsilon_theta it computes itself: passing the (positive) Mino frequency, or a = 0 where the
value computed is positive too, gave the wrong phase.
---
 kerrgeopy/initial_conditions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index b669d62..2a6828f 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -242,12 +242,15 @@ def stable_orbit_initial_phases(
                 a, constants, radial_roots, polar_roots
             )
 
+        # the polar frequency is positive whatever the sign of L
+        upsilon_theta = abs(upsilon_theta)
+
         k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
         y_theta = cos(theta0) / sqrt(z_minus)
         e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
 
         # Fujita and Hikida equation 37
-        lambda_theta0 = 1 / (L * sqrt(e0zp)) * ellipkinc(arcsin(y_theta), k_theta**2)
+        lambda_theta0 = 1 / (abs(L) * sqrt(e0zp)) * ellipkinc(arcsin(y_theta), k_theta**2)
 
         # Fujita and Hikida equation 36
         if dtheta0 < 0:
-- 
2.43.0


From 85fd68832cd50ab2b56b11ae77edd2ed30496345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 06/40] fix: accept the positive upsilon_theta of retrograde
 orbits in phi_frequency and gamma

Both were wrong for retrograde orbits when given the polar frequency that mino_frequencies
and StableOrbit.upsilon_theta report.
---
 kerrgeopy/frequencies.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 9ecc96d..3998a8b 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -250,6 +250,8 @@ def phi_frequency(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None
         upsilon_r = r_frequency(a, p, e, x, constants)
     if upsilon_theta is None:
         upsilon_theta = theta_frequency(a, p, e, x, constants)
+    # the expressions below expect the sign of L, but mino_frequencies returns the absolute value
+    upsilon_theta = copysign(upsilon_theta, L)
 
     # simplified form of epsilon0*z_plus
     e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
@@ -342,6 +344,8 @@ def gamma(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None):
         upsilon_r = r_frequency(a, p, e, x, constants)
     if upsilon_theta is None:
         upsilon_theta = theta_frequency(a, p, e, x, constants)
+    # the expressions below expect the sign of L, but mino_frequencies returns the absolute value
+    upsilon_theta = copysign(upsilon_theta, L)
 
     r_plus = 1 + sqrt(1 - a**2)
     r_minus = 1 - sqrt(1 - a**2)
-- 
2.43.0


From eadaccc0ad39e97f1a2fa602609305b71243f683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 07/40] fix: standardize negative spin in stable_trajectory

The frequencies and constants standardize (a,x) themselves, but radial_solutions got the
negative spin together with them, so t and phi were wrong for a < 0.
---
 kerrgeopy/stable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 4aa7ce3..73486b7 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -500,6 +500,7 @@ def stable_trajectory(
     if ((distance_units != "natural") or (time_units != "natural")) and M is None:
         raise ValueError("M must be specified to convert to physical units")
 
+    a, x = _standardize_params(a, x)
     upsilon_r, upsilon_theta, upsilon_phi, gamma = mino_frequencies(a, p, e, x)
     constants = constants_of_motion(a, p, e, x)
     radial_roots = stable_radial_roots(a, p, e, x, constants)
-- 
2.43.0


From 75d35a468435b1e74e3f89821dce5d156987ebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 08/40] fix: test each point against the horizon in is_visible

np.linalg.norm(points) is the norm of the whole list, so points inside the black hole
were reported visible.
---
 kerrgeopy/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index dc4c4a2..34c10de 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -587,7 +587,7 @@ class Orbit:
         return (
             (normal_component >= 0)
             | (np.linalg.norm(projection, axis=1) > event_horizon)
-        ) & (np.linalg.norm(points) > event_horizon)
+        ) & (np.linalg.norm(points, axis=1) > event_horizon)
 
     def animate(
         self,
-- 
2.43.0


From 859d1ef7e4d2e828fca4983a7e1e3133e28d3440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 09/40] fix: avoid NaN phases for plunging orbits that start at
 a turning point or on the equator

Roundoff pushed the arguments of arcsin in plunging_orbit_initial_phases past 1 at a turning
point (e.g. a body released from rest), and for equatorial orbits cos(theta_0)/z_1 is 0/0, so
Orbit returned NaN for about half of the former and all of the latter.
---
 kerrgeopy/initial_conditions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 2a6828f..04da49d 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -6,7 +6,7 @@ from .frequencies import (
 )
 from .constants import plunging_radial_roots, _polar_roots_from_constants
 import numpy as np
-from numpy import sin, cos, sqrt, pi, arcsin, arccos
+from numpy import sin, cos, sqrt, pi, arcsin, arccos, clip
 from numpy.polynomial import Polynomial
 from scipy.special import ellipkinc
 
@@ -345,17 +345,21 @@ def plunging_orbit_initial_phases(
         A = sqrt((r2 - rho_r) ** 2 + rho_i**2)
         B = sqrt((r1 - rho_r) ** 2 + rho_i**2)
         k_r = sqrt(((r2 - r1) ** 2 - (A - B) ** 2) / (4 * A * B))
+        # clipped below because roundoff can push the sine past 1 at a turning point
+        cos_xi_r = (B * (r2 - r0) - A * (r0 - r1)) / (B * (r2 - r0) + A * (r0 - r1))
         # equation 49
         lambda_r0 = (
             -1
             / sqrt((1 - E**2) * A * B)
             * ellipkinc(
-                pi / 2 - arcsin((B * (r2 - r0) - A * (r0 - r1)) / (B * (r2 - r0) + A * (r0 - r1))),
+                pi / 2 - arcsin(clip(cos_xi_r, -1, 1)),
                 k_r**2,
             )
         )
         # derived by inverting equation 29
-        lambda_theta0 = 1 / z2 * ellipkinc(arcsin(cos(theta0) / z1), k_theta**2)
+        # z1 is zero for equatorial orbits
+        sin_xi_theta = clip(cos(theta0) / z1, -1, 1) if z1 > 0 else 0
+        lambda_theta0 = 1 / z2 * ellipkinc(arcsin(sin_xi_theta), k_theta**2)
 
         upsilon_r, upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
 
-- 
2.43.0


From cd072c2ecb860a2e6fc22bc225725caff4be97e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 10/40] fix: recognize marginally bound orbits by their energy
 in _gamma_from_constants

For an equatorial plunge with four real roots r2 = 0, so (r1 - r2)/(r1 + r2) = 1 although
E < 1, and t(lambda) was infinite.
---
 kerrgeopy/frequencies.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 3998a8b..22a3779 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -697,13 +697,11 @@ def _gamma_from_constants(
     r1, r2, r3, r4 = radial_roots
     z_minus, z_plus = polar_roots
 
-    e = (r1 - r2) / (r1 + r2)
+    E, L, Q = constants
     # marginally bound case
-    if e == 1:
+    if E == 1:
         return inf
 
-    E, L, Q = constants
-
     epsilon0 = a**2 * (1 - E**2) / L**2
     # simplified form of a**2*sqrt(z_plus/epsilon0)
     a2sqrt_zp_over_e0 = (
-- 
2.43.0


From e3b7145d3c2db1cd00ee492beb2f00c591598677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 11/40] fix: recognize spherical orbits by their constants or
 initial conditions

Roundoff splits the double root r1 = r2 into a complex conjugate pair about half of the time.
is_stable then called the orbit plunging (so Orbit returned a wrong trajectory) and
apex_from_constants returned complex parameters (so StableOrbit.from_constants raised
TypeError).
---
 kerrgeopy/constants.py          | 4 ++++
 kerrgeopy/initial_conditions.py | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 26c6839..432e922 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -500,6 +500,10 @@ def apex_from_constants(a, E, L, Q):
         ]
     )
     radial_roots = R.roots()
+    # roundoff can split the double root of a spherical orbit into a complex conjugate pair
+    if np.any(abs(np.imag(radial_roots)) > 1e-4 * abs(radial_roots)):
+        raise ValueError("Not a stable orbit")
+    radial_roots = np.real(radial_roots)
     # numpy returns roots in increasing order
     r4, r3, r2, r1 = radial_roots
 
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 04da49d..42afa00 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -111,7 +111,9 @@ def is_stable(a, initial_position, initial_velocity, constants=None, tol=1e-4):
         raise ValueError("Not a physical orbit")
 
     if len(complex_roots) == 2:
-        return False
+        # R < 0 outside the outermost real root, so an orbit out there is a spherical orbit
+        # whose double root was split into a complex conjugate pair by roundoff
+        return bool((E < 1) & (r0 > real_roots[1] + tol))
 
     r4, r3, r2, r1 = real_roots
     # r4 < r3 < [r2 < r_minus < r_plus < r1]
@@ -194,7 +196,8 @@ def stable_orbit_initial_phases(
                 E**2 - 1,
             ]
         )
-        radial_roots = R.roots()
+        # roundoff can split the double root of a spherical orbit into a complex conjugate pair
+        radial_roots = np.real(R.roots())
         # numpy returns roots in increasing order
         r4, r3, r2, r1 = radial_roots
         radial_roots = r1, r2, r3, r4
-- 
2.43.0


From c29d9fd0c4b498a7f4137bf3dfdb104ed7ed61ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 12/40] fix: return the end of the bracket when the separatrix
 coincides with it

separatrix, and everything that calls is_stable, raised 'f(a) and f(b) must have different
signs' for nearly polar (|x| < 1e-7), nearly equatorial or slowly spinning (a < 1e-6) orbits.
---
 kerrgeopy/constants.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 432e922..c13e6eb 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -666,12 +666,18 @@ def separatrix(a, e, x):
         return p_equatorial_retrograde.root
 
     if x > 0:
-        p = root_scalar(_S, args=(a, e, x), bracket=[p_equatorial_prograde.root, p_polar.root])
-        return p.root
+        bracket = [p_equatorial_prograde.root, p_polar.root]
 
     if x < 0:
-        p = root_scalar(_S, args=(a, e, x), bracket=[p_polar.root, 12])
-        return p.root
+        bracket = [p_polar.root, 12]
+
+    # for nearly polar or equatorial orbits and nearly zero spin the root coincides with an end
+    # of the bracket to within roundoff, so that the sign of the polynomial there is lost
+    S_bracket = [_S(p, a, e, x) for p in bracket]
+    if S_bracket[0] * S_bracket[1] >= 0:
+        return bracket[0] if abs(S_bracket[0]) < abs(S_bracket[1]) else bracket[1]
+
+    return root_scalar(_S, args=(a, e, x), bracket=bracket).root
 
 
 def fast_separatrix(a, grid_spacing=0.01):
-- 
2.43.0


From f23d1803b26f7964151bd1b1ed6f02b398d0002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 13/40] fix: solve for the energy of nearly circular orbits
 without cancellation

---
 kerrgeopy/constants.py | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index c13e6eb..461851d 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -195,6 +195,37 @@ def _coefficients_derivative(r, a, x):
     return f_prime(r), g_prime(r), h_prime(r), d_prime(r)
 
 
+def _coefficients_difference(r1, r2, a, x):
+    """Computes the divided differences (f(r1) - f(r2)) / (r1 - r2) etc. of the 
+    coefficients from equation B.5 in `Schmidt <https://doi.org/10.48550/arXiv.gr-qc/0202090>`_, 
+    with the factor r1 - r2 divided out so that nothing cancels as r1 approaches r2
+
+    Parameters
+    ----------
+    r1 : double
+        dimensionless distance from the black hole
+    r2 : double
+        dimensionless distance from the black hole
+    a : double
+        dimensionless spin of the black hole
+    x : double
+        cosine of the orbital inclination
+
+    Returns
+    -------
+    tuple(double, double, double, double)
+    """
+    z = sqrt(1 - x**2)
+    s = r1 + r2
+    r_squared = r1**2 + r2**2
+    f = s * r_squared + a**2 * ((1 + z**2) * s + 2 * (1 - z**2))
+    g = 2 * a
+    h = (s - 2) / (1 - z**2)
+    d = s * r_squared - 2 * (r_squared + r1 * r2) + a**2 * ((1 + z**2) * s - 2 * z**2)
+
+    return f, g, h, d
+
+
 def _standardize_params(a, x):
     """Changes signs of a and x so that a is positive 
     and x encodes the direction of the orbit.
@@ -274,8 +305,10 @@ def energy(a, p, e, x):
     else:
         r1 = p / (1 - e)
         r2 = p / (1 + e)
-        f1, g1, h1, d1 = _coefficients(r1, a, x)
-        f2, g2, h2, d2 = _coefficients(r2, a, x)
+        f1, g1, h1, d1 = _coefficients(r2, a, x)
+        # the equations at r1 and r2 become degenerate as e approaches zero,
+        # so one of them is replaced with their difference
+        f2, g2, h2, d2 = _coefficients_difference(r1, r2, a, x)
 
     # equation B.19 - B.21
     kappa = d1 * h2 - h1 * d2
-- 
2.43.0


From 6c2f7208e458a7cbb903f4981f290c78d0d0ec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 14/40] fix: compute the angular momentum of orbits whose
 turning point lies on the ergosphere

---
 kerrgeopy/constants.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 461851d..9727c2f 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -369,19 +369,15 @@ def angular_momentum(a, p, e, x, E=None):
     if x == 0:
         return 0
 
-    # marginally bound case
-    if e == 1:
-        r2 = p / (1 + e)
-        f2, g2, h2, d2 = _coefficients(r2, a, x)
-        # obtained by solving equation B.17 for L
-        return (-E * g2 + sign(x) * sqrt(-d2 * h2 + E**2 * (g2**2 + f2 * h2))) / h2
-
-    # generic case
-    else:
-        r1 = p / (1 - e)
-        f1, g1, h1, d1 = _coefficients(r1, a, x)
-        # obtained by solving equation B.17 for L
-        return (-E * g1 + sign(x) * sqrt(-d1 * h1 + E**2 * (g1**2 + f1 * h1))) / h1
+    # all other cases
+    r2 = p / (1 + e)
+    f2, g2, h2, d2 = _coefficients(r2, a, x)
+    # obtained by solving equation B.17 for L, using the form of the root in which nothing
+    # cancels and h2 (which vanishes at the ergosphere) does not divide when L is positive
+    sqrt_term = sqrt((E * g2) ** 2 + h2 * (E**2 * f2 - d2))
+    if x > 0:
+        return (E**2 * f2 - d2) / (E * g2 + sqrt_term)
+    return (-E * g2 - sqrt_term) / h2
 
 
 def carter_constant(a, p, e, x, E=None, L=None):
-- 
2.43.0


From 580f8749fb1816ced77881cb3f772ff39820df7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 15/40] fix: avoid cancellation in the constants of motion of
 nearly polar orbits

---
 kerrgeopy/constants.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 9727c2f..f9eb8ba 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -163,7 +163,7 @@ def _coefficients(r, a, x):
     delta = r**2 - 2 * r + a**2
     f = lambda r: r**4 + a**2 * (r * (r + 2) + z**2 * delta)
     g = lambda r: 2 * a * r
-    h = lambda r: r * (r - 2) + z**2 / (1 - z**2) * delta
+    h = lambda r: r * (r - 2) + z**2 / x**2 * delta
     d = lambda r: (r**2 + a**2 * z**2) * delta
 
     return f(r), g(r), h(r), d(r)
@@ -187,9 +187,9 @@ def _coefficients_derivative(r, a, x):
     tuple(double, double, double, double)
     """
     z = sqrt(1 - x**2)
-    f_prime = lambda r: 4 * r**3 + 2 * a**2 * ((1 + z**2) * r + (1 - z**2))
+    f_prime = lambda r: 4 * r**3 + 2 * a**2 * ((1 + z**2) * r + x**2)
     g_prime = lambda r: 2 * a
-    h_prime = lambda r: 2 * (r - 1) / (1 - z**2)
+    h_prime = lambda r: 2 * (r - 1) / x**2
     d_prime = lambda r: 2 * (2 * r - 3) * r**2 + 2 * a**2 * ((1 + z**2) * r - z**2)
 
     return f_prime(r), g_prime(r), h_prime(r), d_prime(r)
@@ -218,9 +218,9 @@ def _coefficients_difference(r1, r2, a, x):
     z = sqrt(1 - x**2)
     s = r1 + r2
     r_squared = r1**2 + r2**2
-    f = s * r_squared + a**2 * ((1 + z**2) * s + 2 * (1 - z**2))
+    f = s * r_squared + a**2 * ((1 + z**2) * s + 2 * x**2)
     g = 2 * a
-    h = (s - 2) / (1 - z**2)
+    h = (s - 2) / x**2
     d = s * r_squared - 2 * (r_squared + r1 * r2) + a**2 * ((1 + z**2) * s - 2 * z**2)
 
     return f, g, h, d
@@ -440,7 +440,7 @@ def carter_constant(a, p, e, x, E=None, L=None):
     if L is None:
         L = angular_momentum(a, p, e, x, E)
     #  equation B.4
-    return z**2 * (a**2 * (1 - E**2) + L**2 / (1 - z**2))
+    return z**2 * (a**2 * (1 - E**2) + L**2 / x**2)
 
 
 def constants_of_motion(a, p, e, x):
-- 
2.43.0


From ffe4f1d566acf549121b731473d7eb53f7940177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 16/40] fix: compute the small radial roots of wide orbits
 without cancellation

---
 kerrgeopy/constants.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index f9eb8ba..05def60 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -39,8 +39,10 @@ def stable_radial_roots(a, p, e, x, constants=None):
     r1 = p / (1 - e)
     r2 = p / (1 + e)
 
-    A_plus_B = 2 / (1 - E**2) - r1 - r2
     AB = a**2 * Q / (r1 * r2 * (1 - E**2))
+    # A + B = 2/(1 - E^2) - r1 - r2, written using the linear coefficient
+    # of the radial polynomial so that nothing cancels for wide orbits
+    A_plus_B = (2 * ((L - abs(a) * E) ** 2 + Q) / (1 - E**2) - AB * (r1 + r2)) / (r1 * r2)
 
     r3 = (A_plus_B + sqrt(A_plus_B**2 - 4 * AB)) / 2
     r4 = AB / r3
-- 
2.43.0


From 59becafcb17336ddb9f1d072e9b1634ea521ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 17/40] fix: reject extreme Kerr and unbound plunges instead of
 returning NaN

---
 kerrgeopy/orbit.py  | 5 +++++
 kerrgeopy/plunge.py | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 34c10de..d58bd01 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -81,6 +81,11 @@ class Orbit:
         )
         self.E, self.L, self.Q = E, L, Q
 
+        if not abs(a) < 1:
+            raise ValueError("Extreme Kerr not supported")
+        if not abs(E) < 1:
+            raise ValueError("Unbound orbits are not currently supported")
+
         if is_stable(a, initial_position, initial_velocity):
             self.stable = True
             a, p, e, x = apex_from_constants(a, E, L, Q)
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index cb9de90..cd6b4c9 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -72,6 +72,10 @@ class PlungingOrbit(Orbit):
 
         if a == 0:
             raise ValueError("Schwarzschild plunges are not currently supported")
+        if not abs(a) < 1:
+            raise ValueError("Extreme Kerr not supported")
+        if not abs(E) < 1:
+            raise ValueError("Unbound orbits are not currently supported")
 
         self.stable = False
         self.upsilon_r, self.upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
-- 
2.43.0


From 8b6a3d79dcd23ffb3f6beb76274998fd12a94f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 18/40] fix: accept fractional tail lengths in animate

tail_length is documented as a double, but a non-integer (or float) value was used as a
slice index and animate raised TypeError once the tail was longer than tail_length.
---
 kerrgeopy/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index d58bd01..f268147 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -801,7 +801,7 @@ class Orbit:
                 pbar.update(1)
 
                 j = speed_multiplier * i
-                j0 = max(0, j - tail_length * point_density)
+                j0 = max(0, j - int(tail_length * point_density))
                 current_time = time[j]
 
                 # update camera angles
-- 
2.43.0


From c2fd7701b64446c7772c3b451e834dafef0fc513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 19/40] fix: accept a list of points in is_visible

points is documented as array_like, but a list or tuple raised AttributeError.
---
 kerrgeopy/orbit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index f268147..46e7596 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -571,6 +571,8 @@ class Orbit:
         # compute event horizon radius
         event_horizon = 1 + sqrt(1 - self.a**2)
 
+        points = np.asarray(points)
+
         # convert viewing angles to radians
         elevation_rad = elevation * pi / 180
         azimuth_rad = azimuth * pi / 180
-- 
2.43.0


From ecc388db5595e784c950f0dc2c01317dd4e4c7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:30 +0000
Subject: [PATCH 20/40] fix: energy of nearly marginally bound orbits is not
 NaN

---
 kerrgeopy/constants.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 05def60..1b995c8 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -326,7 +326,8 @@ def energy(a, p, e, x):
             + 2 * epsilon * sigma
             - sign(x)
             * 2
-            * sqrt(sigma * (sigma * epsilon**2 + rho * epsilon * kappa - eta * kappa**2))
+            # roundoff can make this negative when e is very close to 1
+            * sqrt(max(0, sigma * (sigma * epsilon**2 + rho * epsilon * kappa - eta * kappa**2)))
         )
         / (rho**2 + 4 * eta * sigma)
     )
-- 
2.43.0


From f72f45031cefba6ebe15354c6216abedd1426762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:24 +0000
Subject: [PATCH 21/40] fix: reject plunging orbits with a negative Carter
 constant

---
 kerrgeopy/plunge.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index cd6b4c9..9ee901f 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -76,6 +76,8 @@ class PlungingOrbit(Orbit):
             raise ValueError("Extreme Kerr not supported")
         if not abs(E) < 1:
             raise ValueError("Unbound orbits are not currently supported")
+        if Q < 0:
+            raise ValueError("Bound orbits must have a nonnegative Carter constant")
 
         self.stable = False
         self.upsilon_r, self.upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
-- 
2.43.0


From 2643a07cd251e72d092c272ee95b6f2c6dd867d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 22/40] fix: a negative zero spin does not flip the direction
 of the orbit

---
 kerrgeopy/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 1b995c8..4521ce9 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -243,7 +243,7 @@ def _standardize_params(a, x):
     -------
     tuple(double, double)
     """
-    return abs(a), x * copysign(1, a)
+    return abs(a), x if a >= 0 else -x
 
 
 def energy(a, p, e, x):
-- 
2.43.0


From 5d4a926035c5073cff9af981ce1b8d4141771328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:35 +0000
Subject: [PATCH 23/40] fix: polar motion of plunges around slowly spinning
 holes keeps its digits

---
 kerrgeopy/frequencies.py        | 36 +++++----------------------------
 kerrgeopy/initial_conditions.py | 28 +++----------------------
 kerrgeopy/plunge.py             | 32 ++++-------------------------
 3 files changed, 12 insertions(+), 84 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 22a3779..3b9584b 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -1,7 +1,7 @@
 """Module containing functions for computing frequencies of motion for orbits in Kerr spacetime.
 Frequencies are computed using the method derived in `Fujita and Hikida <https://doi.org/10.48550/arXiv.0906.1420>`_
 """
-from .constants import _standardize_params
+from .constants import _standardize_params, _polar_roots_from_constants
 from .constants import *
 from scipy.special import ellipk, ellipe, elliprj, elliprf, elliprd
 from numpy import sin, cos, sqrt, pi, arcsin, floor, where
@@ -485,41 +485,15 @@ def plunging_mino_frequencies(a, E, L, Q):
         upsilon_r = pi * sqrt(A * B * (1 - E**2)) / (2 * ellipk(k_r**2))
 
         # equation 14
-        z1 = sqrt(
-            1
-            / 2
-            * (
-                1
-                + (L**2 + Q) / (a**2 * (1 - E**2))
-                - sqrt(
-                    (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2
-                    - 4 * Q / (a**2 * (1 - E**2))
-                )
-            )
-        )
-        z2 = sqrt(
-            a**2
-            * (1 - E**2)
-            / 2
-            * (
-                1
-                + (L**2 + Q) / (a**2 * (1 - E**2))
-                + sqrt(
-                    (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2
-                    - 4 * Q / (a**2 * (1 - E**2))
-                )
-            )
-        )
+        z_minus, z_plus = _polar_roots_from_constants(a, E, L, Q)
+        z1 = sqrt(z_minus)
+        z2 = sqrt(a**2 * (1 - E**2) * z_plus)
         k_theta = a * sqrt(1 - E**2) * z1 / z2
 
         # equation 53
         upsilon_theta = pi / 2 * z2 / ellipk(k_theta**2)
     else:
-        # polar polynomial written in terms of z = cos^2(theta)
-        Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-        polar_roots = Z.roots()
-        if a == 0:
-            polar_roots = [polar_roots[0], polar_roots[0]]
+        polar_roots = _polar_roots_from_constants(a, E, L, Q)
         constants = (E, L, Q)
         upsilon_r, upsilon_theta, upsilon_phi, gamma = _mino_frequencies_from_constants(
             a, constants, radial_roots, polar_roots
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 42afa00..942dab7 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -315,31 +315,9 @@ def plunging_orbit_initial_phases(
     r1, r2, r3, r4 = radial_roots
 
     if np.iscomplex(r3):
-        z1 = sqrt(
-            1
-            / 2
-            * (
-                1
-                + (L**2 + Q) / (a**2 * (1 - E**2))
-                - sqrt(
-                    (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2
-                    - 4 * Q / (a**2 * (1 - E**2))
-                )
-            )
-        )
-        z2 = sqrt(
-            a**2
-            * (1 - E**2)
-            / 2
-            * (
-                1
-                + (L**2 + Q) / (a**2 * (1 - E**2))
-                + sqrt(
-                    (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2
-                    - 4 * Q / (a**2 * (1 - E**2))
-                )
-            )
-        )
+        z_minus, z_plus = _polar_roots_from_constants(a, E, L, Q)
+        z1 = sqrt(z_minus)
+        z2 = sqrt(a**2 * (1 - E**2) * z_plus)
         k_theta = a * sqrt(1 - E**2) * z1 / z2
         rho_r = np.real(r3)
         rho_i = np.imag(r4)
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 9ee901f..a0b263b 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -426,29 +426,9 @@ def plunging_polar_solutions(a, E, L, Q):
         tuple of polar solutions :math:`(\theta(q_\theta),
         t_\theta(q_\theta), \phi_\theta(q_\theta))`
     """
-    z1 = sqrt(
-        1
-        / 2
-        * (
-            1
-            + (L**2 + Q) / (a**2 * (1 - E**2))
-            - sqrt(
-                (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2 - 4 * Q / (a**2 * (1 - E**2))
-            )
-        )
-    )
-    z2 = sqrt(
-        a**2
-        * (1 - E**2)
-        / 2
-        * (
-            1
-            + (L**2 + Q) / (a**2 * (1 - E**2))
-            + sqrt(
-                (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2 - 4 * Q / (a**2 * (1 - E**2))
-            )
-        )
-    )
+    z_minus, z_plus = _polar_roots_from_constants(a, E, L, Q)
+    z1 = sqrt(z_minus)
+    z2 = sqrt(a**2 * (1 - E**2) * z_plus)
     k_theta = a * sqrt(1 - E**2) * z1 / z2
 
     upsilon_r, upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
@@ -660,11 +640,7 @@ def _real_plunge_trajectory(
     constants = (E, L, Q)
     radial_roots = plunging_radial_roots(a, E, L, Q)
 
-    # polar polynomial written in terms of z = cos^2(theta)
-    Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-    polar_roots = Z.roots()
-    if a == 0:
-        polar_roots = [polar_roots[0], polar_roots[0]]
+    polar_roots = _polar_roots_from_constants(a, E, L, Q)
 
     upsilon_r, upsilon_theta, upsilon_phi, gamma = _mino_frequencies_from_constants(
         a, constants, radial_roots, polar_roots
-- 
2.43.0


From 8c7b505ec200a74f18b462984bca0febaa0f229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 24/40] fix: plunges around slowly spinning holes are finite
 down to zero spin

---
 kerrgeopy/constants.py   | 5 +++++
 kerrgeopy/frequencies.py | 4 ++--
 kerrgeopy/plunge.py      | 4 ++--
 kerrgeopy/stable.py      | 2 +-
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 4521ce9..a28abbe 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -85,6 +85,11 @@ def plunging_radial_roots(a, E, L, Q):
     roots = R.roots()
     # get the real roots and the complex roots
     real_roots = np.sort(np.real(roots[np.isreal(roots)]))
+    # a Newton step recovers the digits of the innermost root when the spin is small
+    if len(real_roots) > 0:
+        slope = R.deriv()(real_roots[0])
+        if slope != 0:
+            real_roots[0] -= R(real_roots[0]) / slope
     complex_roots = roots[np.iscomplex(roots)]
 
     r_minus = 1 - sqrt(1 - a**2)
diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 3b9584b..ab96a20 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -616,7 +616,7 @@ def _phi_frequency_from_constants(
     e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
 
     r_plus = 1 + sqrt(1 - a**2)
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
     h_minus = (r1 - r2) * (r3 - r_minus) / ((r1 - r3) * (r2 - r_minus))
@@ -691,7 +691,7 @@ def _gamma_from_constants(
         upsilon_theta = _theta_frequency_from_constants(a, constants, radial_roots, polar_roots)
 
     r_plus = 1 + sqrt(1 - a**2)
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     h_r = (r1 - r2) / (r1 - r3)
     h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index a0b263b..2668b2f 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -184,7 +184,7 @@ def plunging_radial_integrals(a, E, L, Q):
 
     # inner and outer horizons
     r_plus = 1 + sqrt(1 - a**2)
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     # equation 42
     A = sqrt((r2 - rho_r) ** 2 + rho_i**2)
@@ -354,7 +354,7 @@ def plunging_radial_solutions_complex(a, E, L, Q):
 
     # inner and outer horizons
     r_plus = 1 + sqrt(1 - a**2)
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     # equation 42
     A = sqrt((r2 - rho_r) ** 2 + rho_i**2)
diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 73486b7..51f2cec 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -296,7 +296,7 @@ def radial_solutions(a, constants, radial_roots):
     r1, r2, r3, r4 = radial_roots
 
     r_plus = 1 + sqrt(1 - a**2)
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     h_r = (r1 - r2) / (r1 - r3)
     h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
-- 
2.43.0


From 774587994f8e05beb3d7c4aeedfb8aabdb7e9751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 25/40] fix: time of orbits next to their turning points keeps
 its digits

---
 kerrgeopy/frequencies.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index ab96a20..ad11a79 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -4,7 +4,7 @@ Frequencies are computed using the method derived in `Fujita and Hikida <https:/
 from .constants import _standardize_params, _polar_roots_from_constants
 from .constants import *
 from scipy.special import ellipk, ellipe, elliprj, elliprf, elliprd
-from numpy import sin, cos, sqrt, pi, arcsin, floor, where
+from numpy import sin, cos, sqrt, pi, floor, rint, where
 
 
 def _ellipeinc(phi, m):
@@ -24,7 +24,7 @@ def _ellipeinc(phi, m):
 
     num_cycles = floor(phi / (pi / 2))
     # map phi to [0,pi/2]
-    phi = abs(arcsin(sin(phi)))
+    phi = abs(phi - pi * rint(phi / pi))
 
     # formula from https://en.wikipedia.org/wiki/Carlson_symmetric_form
     integral = sin(phi) * elliprf(cos(phi) ** 2, 1 - m * sin(phi) ** 2, 1) - 1 / 3 * m * sin(
@@ -78,7 +78,7 @@ def _ellippiinc(phi, n, m):
     # count the number of half periods
     num_cycles = floor(phi / (pi / 2))
     # map phi to [0,pi/2]
-    phi = abs(arcsin(sin(phi)))
+    phi = abs(phi - pi * rint(phi / pi))
     # formula from https://en.wikipedia.org/wiki/Carlson_symmetric_form
     integral = sin(phi) * elliprf(cos(phi) ** 2, 1 - m * sin(phi) ** 2, 1) + 1 / 3 * n * sin(
         phi
-- 
2.43.0


From a5de528f20f68403e58846f16cb50760094c850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:41 +0000
Subject: [PATCH 26/40] fix: coordinate time of plunges whose radial integrals
 pass the symmetric point A = B

---
 kerrgeopy/plunge.py | 70 ++++++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 29 deletions(-)

diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 2668b2f..632f3e0 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -1,8 +1,8 @@
 """Module implementing the plunging orbit solutions of `Dyson and van de Meent <https://doi.org/10.48550/arXiv.2302.03704>`_"""
-from numpy import sqrt, arctan, arctan2, arccos, log, pi
+from numpy import sqrt, sin, cos, arctan, arccos, log, pi, rint
 from numpy.polynomial import Polynomial
 import numpy as np
-from scipy.special import ellipj, ellipeinc, ellipk
+from scipy.special import ellipj, ellipeinc, ellipk, elliprd, elliprj
 from .constants import _polar_roots_from_constants
 from .frequencies import _mino_frequencies_from_constants, _ellippiinc
 from .stable import *
@@ -189,7 +189,6 @@ def plunging_radial_integrals(a, E, L, Q):
     # equation 42
     A = sqrt((r2 - rho_r) ** 2 + rho_i**2)
     B = sqrt((r1 - rho_r) ** 2 + rho_i**2)
-    f = 4 * A * B / (A - B) ** 2
     k_r = sqrt(((r2 - r1) ** 2 - (A - B) ** 2) / (4 * A * B))
 
     upsilon_r, upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
@@ -202,43 +201,56 @@ def plunging_radial_integrals(a, E, L, Q):
         A * (r_minus - r1) + B * (r2 - r_minus)
     )
 
+    # equations 46 and 47 divide by A - B and lose all digits where A = B, so the integrals are
+    # written in terms of r = (r1 + r2)/2 - (r2 - r1)/2 * w, w = (eta + cn)/(1 + eta * cn),
+    # where eta = (A - B)/(A + B) may vanish
+    eta_factor = (A - B) * (A + B) / (4 * A * B)
+    n = -((A - B) ** 2) / (4 * A * B)
+    kappa = (r2 - r1) ** 2 / (4 * A * B)
+    r_mean, r_half = (r1 + r2) / 2, (r2 - r1) / 2
+
+    def elliptic_integrals(xi_r):
+        # integrals of sn^2 and sn^2/(1 - n sn^2), using
+        # https://en.wikipedia.org/wiki/Carlson_symmetric_form
+        num_periods = rint(xi_r / pi)
+        sn, cn = sin(xi_r - pi * num_periods), cos(xi_r - pi * num_periods)
+        cn2, dn2, D = cn**2, 1 - k_r**2 * sn**2, 1 - n * sn**2
+        S = sn**3 / 3 * elliprd(cn2, dn2, 1) + num_periods * 2 / 3 * elliprd(0, 1 - k_r**2, 1)
+        J = sn**3 / 3 * elliprj(cn2, dn2, 1, D) + num_periods * 2 / 3 * elliprj(
+            0, 1 - k_r**2, 1, 1 - n
+        )
+        return S, J
+
     def I_r(q_r):
         # equation 43
-        sn, cn, dn, xi_r = ellipj(2 * ellipk(k_r**2) * q_r / pi, k_r**2)
+        u = 2 * ellipk(k_r**2) * q_r / pi
+        sn, cn, dn, xi_r = ellipj(u, k_r**2)
         mino_time = q_r / upsilon_r
+        S, J = elliptic_integrals(xi_r)
         # equation 46
         return (
-            (A * r1 - B * r2) / (A - B) * mino_time
-            - 1 / sqrt(1 - E**2) * arctan((r2 - r1) * sn / (2 * sqrt(A * B) * dn))
-            + (A + B)
-            * (r2 - r1)
-            / (2 * (A - B) * sqrt(A * B * (1 - E**2)))
-            * _ellippiinc(xi_r, -1 / f, k_r**2)
+            r_mean * mino_time
+            - 1 / sqrt(1 - E**2) * arctan(sqrt(kappa) * sn / dn)
+            - r_half * eta_factor / sqrt(A * B * (1 - E**2)) * J
         )
 
     def I_r2(q_r):
         # equation 43
-        sn, cn, dn, xi_r = ellipj(2 * ellipk(k_r**2) * q_r / pi, k_r**2)
+        u = 2 * ellipk(k_r**2) * q_r / pi
+        sn, cn, dn, xi_r = ellipj(u, k_r**2)
         mino_time = q_r / upsilon_r
-        # equation 47
-        return (
-            (A * r1**2 - B * r2**2) / (A - B) * mino_time
-            + sqrt(A * B) / sqrt(1 - E**2) * ellipeinc(xi_r, k_r**2)
-            - (A + B)
-            * (A**2 + 2 * r1**2 - B**2 - 2 * r2**2)
-            / (4 * (A - B) * sqrt((1 - E**2) * A * B))
-            * _ellippiinc(xi_r, -1 / f, k_r**2)
-            - sqrt(A * B)
-            * (A + B - (A - B) * cn)
-            * sn
-            * dn
-            / ((A - B) * sqrt(1 - E**2) * (f + sn**2))
-            + (A**2 + 2 * r1**2 - B**2 - 2 * r2**2)
-            / (4 * (r2 - r1) * sqrt(1 - E**2))
-            * arctan2(
-                2 * sn * dn * sqrt(f * (1 + f * k_r**2)), f - (1 + 2 * f * k_r**2) * sn**2
-            )
+        S, J = elliptic_integrals(xi_r)
+        # integral of sn^2/(1 - n sn^2)^2
+        J2 = (n * u - k_r**2 * S + (n**2 - k_r**2) * J - n * sn * cn * dn / (1 - n * sn**2)) / (
+            2 * (n - 1) * kappa
         )
+        # integral of sn^2 cn/(1 - n sn^2)^2
+        z = sqrt(kappa) * sn / dn
+        C2 = (arctan(z) - z / (1 + z**2)) / (2 * kappa ** (3 / 2))
+        # integral of 1 - w^2 with respect to mino time
+        W2 = (2 * (1 - n) * J2 - J - 2 * eta_factor * C2) / sqrt(A * B * (1 - E**2))
+        # equation 47
+        return (r_half**2 - r_mean**2) * mino_time + 2 * r_mean * I_r(q_r) - r_half**2 * W2
 
     def I_r_plus(q_r):
         # equation 43
-- 
2.43.0


From 386b23edca3fd37549845ef6b81afef5821a0007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:41 +0000
Subject: [PATCH 27/40] fix: plunges turning at a horizon are finite

---
 kerrgeopy/constants.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index a28abbe..33ebfae 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -90,6 +90,15 @@ def plunging_radial_roots(a, E, L, Q):
         slope = R.deriv()(real_roots[0])
         if slope != 0:
             real_roots[0] -= R(real_roots[0]) / slope
+    # there are no roots between the horizons, so one found there by roundoff lies just outside
+    root = sqrt(1 - a**2)
+    horizons = np.array([a**2 / (1 + root), 1 + root])
+    between = (real_roots > 0) & (real_roots >= horizons[0]) & (real_roots <= horizons[1])
+    real_roots[between] = np.where(
+        real_roots[between] < 1,
+        np.nextafter(horizons[0], -1),
+        np.nextafter(horizons[1], 3),
+    )
     complex_roots = roots[np.iscomplex(roots)]
 
     r_minus = 1 - sqrt(1 - a**2)
-- 
2.43.0


From 1d3f2d1ac0bcf3e27d89b96d398a9c967392e7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:40 +0000
Subject: [PATCH 28/40] fix: reject constants of motion that belong to no bound
 orbit

---
 kerrgeopy/constants.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 33ebfae..ba0a20f 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -535,6 +535,10 @@ def apex_from_constants(a, E, L, Q):
     tuple(double,double,double,double)
         tuple of orbital parameters :math:`(a,p,e,x)`
     """
+    # bound orbits have 0 < E < 1 and, up to roundoff, Q >= 0
+    if not (abs(a) < 1 and 0 < E < 1 and Q >= -1e-10 * (1 + L**2)):
+        raise ValueError("Not a stable orbit")
+
     # Radial polynomial
     R = Polynomial(
         [
@@ -552,6 +556,9 @@ def apex_from_constants(a, E, L, Q):
     radial_roots = np.real(radial_roots)
     # numpy returns roots in increasing order
     r4, r3, r2, r1 = radial_roots
+    # both turning points lie outside the horizon
+    if r2 <= 1 + sqrt(1 - a**2):
+        raise ValueError("Not a stable orbit")
 
     z_minus, z_plus = _polar_roots_from_constants(a, E, L, Q)
 
-- 
2.43.0


From bc39eff864bcb25f3b9788c45c11ae7063b2e700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:58 +0000
Subject: [PATCH 29/40] fix: reject initial data that are not finite

---
 kerrgeopy/orbit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 46e7596..5ae7d93 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -69,6 +69,8 @@ class Orbit:
         )
 
         # check if initial four-velocity is valid
+        if not np.all(np.isfinite([*initial_position, *initial_velocity])):
+            raise ValueError("Initial position and velocity must be finite")
         spacetime = KerrSpacetime(a)
         initial_norm = spacetime.norm(*initial_position, initial_velocity)
         if initial_norm >= 0:
-- 
2.43.0


From b8028047d0dd3eceaffdb59d2ef40eb790830776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:58 +0000
Subject: [PATCH 30/40] fix: orbits whose third radial root touches the horizon
 have finite frequencies

---
 kerrgeopy/frequencies.py | 84 ++++++++++++++++++++++++++++++++--------
 kerrgeopy/stable.py      | 35 ++++++++---------
 2 files changed, 84 insertions(+), 35 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index ad11a79..cec7871 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -94,6 +94,46 @@ def _ellippiinc(phi, n, m):
     return result.item() if np.isscalar(phi) else result
 
 
+def _ellipj3(n, m):
+    r"""Complete elliptic integral :math:`(\Pi(n,m) - K(m))/n =
+    \int_0^{\frac{\pi}{2}} \frac{\sin^2{\theta}d\theta}{(1-n\sin^2{\theta})\sqrt{1-m\sin^2{\theta}}}`, 
+    which is regular at n = 0
+
+    Parameters
+    ----------
+    n : double
+    m : double
+
+    Returns
+    -------
+    double
+    """
+    return 1 / 3 * elliprj(0, 1 - m, 1, 1 - n)
+
+
+def _ellipj3inc(phi, n, m):
+    r"""Incomplete elliptic integral :math:`(\Pi(\phi,n,m) - F(\phi,m))/n =
+    \int_0^{\phi} \frac{\sin^2{\theta}d\theta}{(1-n\sin^2{\theta})\sqrt{1-m\sin^2{\theta}}}`, 
+    which is regular at n = 0
+
+    Parameters
+    ----------
+    phi : double
+    n : double
+    m : double
+
+    Returns
+    -------
+    double
+    """
+    # map phi to [-pi/2,pi/2]
+    num_half_turns = rint(phi / pi)
+    phi = phi - pi * num_half_turns
+    return 2 * num_half_turns * _ellipj3(n, m) + 1 / 3 * sin(phi) ** 3 * elliprj(
+        cos(phi) ** 2, 1 - m * sin(phi) ** 2, 1, 1 - n * sin(phi) ** 2
+    )
+
+
 def r_frequency(a, p, e, x, constants=None):
     """Computes the frequency of motion in r in Mino time
 
@@ -261,6 +301,9 @@ def phi_frequency(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None
 
     h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
     h_minus = (r1 - r2) * (r3 - r_minus) / ((r1 - r3) * (r2 - r_minus))
+    # h/(r3 - r_plus) and h/(r3 - r_minus) times r2 - r3, which are finite when r3 lies on a horizon
+    g_plus = (r1 - r2) * (r2 - r3) / ((r1 - r3) * (r2 - r_plus))
+    g_minus = (r1 - r2) * (r2 - r3) / ((r1 - r3) * (r2 - r_minus))
 
     # equation 13
     k_theta = sqrt(z_minus / z_plus)
@@ -273,11 +316,11 @@ def phi_frequency(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None
         pi * (r_plus - r_minus) * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4))
     ) * (
         (2 * E * r_plus - a * L)
-        / (r3 - r_plus)
-        * (ellipk(k_r**2) - (r2 - r3) / (r2 - r_plus) * _ellippi(h_plus, k_r**2))
+        / (r2 - r_plus)
+        * (ellipk(k_r**2) - g_plus * _ellipj3(h_plus, k_r**2))
         - (2 * E * r_minus - a * L)
-        / (r3 - r_minus)
-        * (ellipk(k_r**2) - (r2 - r3) / (r2 - r_minus) * _ellippi(h_minus, k_r**2))
+        / (r2 - r_minus)
+        * (ellipk(k_r**2) - g_minus * _ellipj3(h_minus, k_r**2))
     )
 
 
@@ -353,6 +396,9 @@ def gamma(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None):
     h_r = (r1 - r2) / (r1 - r3)
     h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
     h_minus = (r1 - r2) * (r3 - r_minus) / ((r1 - r3) * (r2 - r_minus))
+    # h/(r3 - r_plus) and h/(r3 - r_minus) times r2 - r3, which are finite when r3 lies on a horizon
+    g_plus = (r1 - r2) * (r2 - r3) / ((r1 - r3) * (r2 - r_plus))
+    g_minus = (r1 - r2) * (r2 - r3) / ((r1 - r3) * (r2 - r_minus))
 
     # equation 13
     k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
@@ -383,11 +429,11 @@ def gamma(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None):
             / (r_plus - r_minus)
             * (
                 ((4 * E - a * L) * r_plus - 2 * a**2 * E)
-                / (r3 - r_plus)
-                * (ellipk(k_r**2) - (r2 - r3) / (r2 - r_plus) * _ellippi(h_plus, k_r**2))
+                / (r2 - r_plus)
+                * (ellipk(k_r**2) - g_plus * _ellipj3(h_plus, k_r**2))
                 - ((4 * E - a * L) * r_minus - 2 * a**2 * E)
-                / (r3 - r_minus)
-                * (ellipk(k_r**2) - (r2 - r3) / (r2 - r_minus) * _ellippi(h_minus, k_r**2))
+                / (r2 - r_minus)
+                * (ellipk(k_r**2) - g_minus * _ellipj3(h_minus, k_r**2))
             )
         )
     )
@@ -620,6 +666,9 @@ def _phi_frequency_from_constants(
 
     h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
     h_minus = (r1 - r2) * (r3 - r_minus) / ((r1 - r3) * (r2 - r_minus))
+    # h/(r3 - r_plus) and h/(r3 - r_minus) times r2 - r3, which are finite when r3 lies on a horizon
+    g_plus = (r1 - r2) * (r2 - r3) / ((r1 - r3) * (r2 - r_plus))
+    g_minus = (r1 - r2) * (r2 - r3) / ((r1 - r3) * (r2 - r_minus))
 
     # equation 13
     k_theta = sqrt(z_minus / z_plus)
@@ -632,11 +681,11 @@ def _phi_frequency_from_constants(
         pi * (r_plus - r_minus) * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4))
     ) * (
         (2 * E * r_plus - a * L)
-        / (r3 - r_plus)
-        * (ellipk(k_r**2) - (r2 - r3) / (r2 - r_plus) * _ellippi(h_plus, k_r**2))
+        / (r2 - r_plus)
+        * (ellipk(k_r**2) - g_plus * _ellipj3(h_plus, k_r**2))
         - (2 * E * r_minus - a * L)
-        / (r3 - r_minus)
-        * (ellipk(k_r**2) - (r2 - r3) / (r2 - r_minus) * _ellippi(h_minus, k_r**2))
+        / (r2 - r_minus)
+        * (ellipk(k_r**2) - g_minus * _ellipj3(h_minus, k_r**2))
     )
 
 
@@ -696,6 +745,9 @@ def _gamma_from_constants(
     h_r = (r1 - r2) / (r1 - r3)
     h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
     h_minus = (r1 - r2) * (r3 - r_minus) / ((r1 - r3) * (r2 - r_minus))
+    # h/(r3 - r_plus) and h/(r3 - r_minus) times r2 - r3, which are finite when r3 lies on a horizon
+    g_plus = (r1 - r2) * (r2 - r3) / ((r1 - r3) * (r2 - r_plus))
+    g_minus = (r1 - r2) * (r2 - r3) / ((r1 - r3) * (r2 - r_minus))
 
     # equation 13
     k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
@@ -726,11 +778,11 @@ def _gamma_from_constants(
             / (r_plus - r_minus)
             * (
                 ((4 * E - a * L) * r_plus - 2 * a**2 * E)
-                / (r3 - r_plus)
-                * (ellipk(k_r**2) - (r2 - r3) / (r2 - r_plus) * _ellippi(h_plus, k_r**2))
+                / (r2 - r_plus)
+                * (ellipk(k_r**2) - g_plus * _ellipj3(h_plus, k_r**2))
                 - ((4 * E - a * L) * r_minus - 2 * a**2 * E)
-                / (r3 - r_minus)
-                * (ellipk(k_r**2) - (r2 - r3) / (r2 - r_minus) * _ellippi(h_minus, k_r**2))
+                / (r2 - r_minus)
+                * (ellipk(k_r**2) - g_minus * _ellipj3(h_minus, k_r**2))
             )
         )
     )
diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 51f2cec..6307a4d 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -1,7 +1,7 @@
 """Module implementing the stable bound orbit solutions of `Fujita and Hikida <https://doi.org/10.48550/arXiv.0906.1420>`_"""
 from .constants import *
 from .constants import _standardize_params
-from .frequencies import _ellippi, _ellippiinc, _ellipeinc
+from .frequencies import _ellippi, _ellippiinc, _ellipeinc, _ellipj3, _ellipj3inc
 from .frequencies import *
 from scipy.special import ellipj
 from .orbit import Orbit
@@ -301,6 +301,9 @@ def radial_solutions(a, constants, radial_roots):
     h_r = (r1 - r2) / (r1 - r3)
     h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
     h_minus = (r1 - r2) * (r3 - r_minus) / ((r1 - r3) * (r2 - r_minus))
+    # h/(r3 - r_plus) and h/(r3 - r_minus) times r2 - r3, which are finite when r3 lies on a horizon
+    g_plus = (r1 - r2) * (r2 - r3) / ((r1 - r3) * (r2 - r_plus))
+    g_minus = (r1 - r2) * (r2 - r3) / ((r1 - r3) * (r2 - r_minus))
 
     # equation 13
     k_r = sqrt((r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4)))
@@ -344,19 +347,13 @@ def radial_solutions(a, constants, radial_roots):
                 / (r_plus - r_minus)
                 * (
                     ((4 * E - a * L) * r_plus - 2 * a**2 * E)
-                    * (r2 - r3)
-                    / ((r3 - r_plus) * (r2 - r_plus))
-                    * (
-                        _ellippiinc(psi_r, h_plus, k_r**2)
-                        - q_r / pi * _ellippi(h_plus, k_r**2)
-                    )
+                    * g_plus
+                    / (r2 - r_plus)
+                    * (_ellipj3inc(psi_r, h_plus, k_r**2) - q_r / pi * _ellipj3(h_plus, k_r**2))
                     - ((4 * E - a * L) * r_minus - 2 * a**2 * E)
-                    * (r2 - r3)
-                    / ((r3 - r_minus) * (r2 - r_minus))
-                    * (
-                        _ellippiinc(psi_r, h_minus, k_r**2)
-                        - q_r / pi * _ellippi(h_minus, k_r**2)
-                    )
+                    * g_minus
+                    / (r2 - r_minus)
+                    * (_ellipj3inc(psi_r, h_minus, k_r**2) - q_r / pi * _ellipj3(h_minus, k_r**2))
                 )
             )
         )
@@ -372,13 +369,13 @@ def radial_solutions(a, constants, radial_roots):
             / ((r_plus - r_minus) * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4)))
             * (
                 (2 * E * r_plus - a * L)
-                * (r2 - r3)
-                / ((r3 - r_plus) * (r2 - r_plus))
-                * (_ellippiinc(psi_r, h_plus, k_r**2) - q_r / pi * _ellippi(h_plus, k_r**2))
+                * g_plus
+                / (r2 - r_plus)
+                * (_ellipj3inc(psi_r, h_plus, k_r**2) - q_r / pi * _ellipj3(h_plus, k_r**2))
                 - (2 * E * r_minus - a * L)
-                * (r2 - r3)
-                / ((r3 - r_minus) * (r2 - r_minus))
-                * (_ellippiinc(psi_r, h_minus, k_r**2) - q_r / pi * _ellippi(h_minus, k_r**2))
+                * g_minus
+                / (r2 - r_minus)
+                * (_ellipj3inc(psi_r, h_minus, k_r**2) - q_r / pi * _ellipj3(h_minus, k_r**2))
             )
         )
 
-- 
2.43.0


From 3bd2da0169751477d52f503db310e4e7efb49a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:56 +0000
Subject: [PATCH 31/40] fix: evaluate trajectory deltas and numerical
 velocities in double precision for any numeric type

---
 kerrgeopy/orbit.py  | 5 ++++-
 kerrgeopy/plunge.py | 3 ++-
 kerrgeopy/stable.py | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 5ae7d93..4f0889a 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -131,7 +131,8 @@ class Orbit:
         """
         if initial_phases is None:
             initial_phases = self.initial_phases
-        q_t0, q_r0, q_theta0, q_phi0 = initial_phases
+        # double precision phases keep the sums below in double precision for any numeric type
+        q_t0, q_r0, q_theta0, q_phi0 = np.asarray(initial_phases, dtype=float)
 
         if self.stable:
             from .stable import radial_solutions, polar_solutions
@@ -385,6 +386,8 @@ class Orbit:
         """
         if initial_phases is None:
             initial_phases = self.initial_phases
+        # a double precision step keeps the differences in double precision for any numeric type
+        dx = np.float64(dx)
         t, r, theta, phi = self.trajectory(initial_phases)
 
         def u_t(mino_time):
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 632f3e0..e5be344 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -105,7 +105,8 @@ class PlungingOrbit(Orbit):
         """
         if initial_phases is None:
             initial_phases = self.initial_phases
-        q_t0, q_r0, q_theta0, q_phi0 = initial_phases
+        # double precision phases keep the sums below in double precision for any numeric type
+        q_t0, q_r0, q_theta0, q_phi0 = np.asarray(initial_phases, dtype=float)
 
         radial_roots = plunging_radial_roots(self.a, self.E, self.L, self.Q)
         if np.iscomplex(radial_roots[3]):
diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 6307a4d..2eaac1f 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -223,7 +223,8 @@ class StableOrbit(Orbit):
         """
         if initial_phases is None:
             initial_phases = self.initial_phases
-        q_t0, q_r0, q_theta0, q_phi0 = initial_phases
+        # double precision phases keep the sums below in double precision for any numeric type
+        q_t0, q_r0, q_theta0, q_phi0 = np.asarray(initial_phases, dtype=float)
 
         constants = (self.E, self.L, self.Q)
         radial_roots = stable_radial_roots(self.a, self.p, self.e, self.x, constants)
-- 
2.43.0


From c9f1c678571588c9f5f4cf9af5c142e673d6369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:02 +0000
Subject: [PATCH 32/40] fix: nearly polar orbits keep the digits of 1 - z_minus

---
 kerrgeopy/constants.py          | 37 ++++++++++++++++++++++++---
 kerrgeopy/frequencies.py        | 44 +++++++++++++++++----------------
 kerrgeopy/initial_conditions.py |  2 +-
 kerrgeopy/plunge.py             |  5 ++--
 kerrgeopy/stable.py             | 16 +++++-------
 5 files changed, 66 insertions(+), 38 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index ba0a20f..effdae4 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -153,7 +153,7 @@ def stable_polar_roots(a, p, e, x, constants=None):
     z_minus = 1 - x**2
     # z_plus = a**2*(1-E**2)/(L**2*epsilon0)+1/(epsilon0*(1-z_minus))
     # simplified using definition of carter constant
-    z_plus = nan if a == 0 else 1 + 1 / (epsilon0 * (1 - z_minus))
+    z_plus = nan if a == 0 else 1 + 1 / (epsilon0 * x**2)
 
     return z_minus, z_plus
 
@@ -515,6 +515,37 @@ def _polar_roots_from_constants(a, E, L, Q):
     return z_minus, z_plus
 
 
+def _polar_complement(a, E, L, Q):
+    r"""Computes :math:`1-z_- = \sin^2\theta_{\text{min}}` from the constants of motion
+    without cancellation, so that it keeps its digits for nearly polar orbits.
+
+    Parameters
+    ----------
+    a : double
+        spin parameter
+    E : double
+        dimensionless energy
+    L : double
+        dimensionless angular momentum
+    Q : double
+        dimensionless Carter constant
+
+    Returns
+    -------
+    double
+    """
+    z_minus, z_plus = _polar_roots_from_constants(a, E, L, Q)
+    if z_minus < 1 / 2:
+        return 1 - z_minus
+
+    # positive root of beta*u^2 + b*u - L^2 = 0 where u = 1 - z
+    beta = a**2 * (1 - E**2)
+    b = Q + L**2 - beta
+    s = sqrt((Q - beta) ** 2 + L**2 * (L**2 + 2 * Q + 2 * beta))
+
+    return 2 * L**2 / (s + b) if b >= 0 else (s - b) / (2 * beta)
+
+
 def apex_from_constants(a, E, L, Q):
     r"""Computes the orbital parameters :math:`(a,p,e,x)` for a 
     stable bound orbit with the given constants of motion
@@ -560,11 +591,9 @@ def apex_from_constants(a, E, L, Q):
     if r2 <= 1 + sqrt(1 - a**2):
         raise ValueError("Not a stable orbit")
 
-    z_minus, z_plus = _polar_roots_from_constants(a, E, L, Q)
-
     p = 2 * r1 * r2 / (r1 + r2)
     e = (r1 - r2) / (r1 + r2)
-    x = np.sign(L) * sqrt(1 - z_minus)
+    x = np.sign(L) * sqrt(_polar_complement(a, E, L, Q))
 
     return a, p, e, x
 
diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index cec7871..5b07e06 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -1,7 +1,7 @@
 """Module containing functions for computing frequencies of motion for orbits in Kerr spacetime.
 Frequencies are computed using the method derived in `Fujita and Hikida <https://doi.org/10.48550/arXiv.0906.1420>`_
 """
-from .constants import _standardize_params, _polar_roots_from_constants
+from .constants import _standardize_params, _polar_roots_from_constants, _polar_complement
 from .constants import *
 from scipy.special import ellipk, ellipe, elliprj, elliprf, elliprd
 from numpy import sin, cos, sqrt, pi, floor, rint, where
@@ -40,7 +40,7 @@ def _ellipeinc(phi, m):
     return result.item() if np.isscalar(phi) else result
 
 
-def _ellippi(n, m):
+def _ellippi(n, m, nc=None):
     r"""Complete elliptic integral of the third kind defined as 
     :math:`\Pi(n,m) = \int_0^{\frac{\pi}{2}} \frac{d\theta}{(1-n\sin^2{\theta})\sqrt{1-m\sin^2{\theta}}}`
 
@@ -48,18 +48,22 @@ def _ellippi(n, m):
     ----------
     n : double
     m : double
+    nc : double, optional
+        complement 1 - n, can be passed in when it is known more accurately than n gives it
 
     Returns
     -------
     double
     """
     # Note: sign of n is reversed from the definition in Fujita and Hikida
+    if nc is None:
+        nc = 1 - n
 
     # formula from https://en.wikipedia.org/wiki/Carlson_symmetric_form
-    return elliprf(0, 1 - m, 1) + 1 / 3 * n * elliprj(0, 1 - m, 1, 1 - n)
+    return elliprf(0, 1 - m, 1) + 1 / 3 * n * elliprj(0, 1 - m, 1, nc)
 
 
-def _ellippiinc(phi, n, m):
+def _ellippiinc(phi, n, m, nc=None):
     r"""Incomplete elliptic integral of the third kind defined as 
     :math:`\Pi(\phi,n,m) = \int_0^{\phi} \frac{1}{1-n\sin^2\theta}\frac{1}{\sqrt{1-m\sin^2\theta}}d\theta`.
 
@@ -68,12 +72,16 @@ def _ellippiinc(phi, n, m):
     phi : double
     n : double
     m : double
+    nc : double, optional
+        complement 1 - n, can be passed in when it is known more accurately than n gives it
 
     Returns
     -------
     double
     """
     # Note: sign of n is reversed from the definition in Fujita and Hikida
+    if nc is None:
+        nc = 1 - n
 
     # count the number of half periods
     num_cycles = floor(phi / (pi / 2))
@@ -82,12 +90,12 @@ def _ellippiinc(phi, n, m):
     # formula from https://en.wikipedia.org/wiki/Carlson_symmetric_form
     integral = sin(phi) * elliprf(cos(phi) ** 2, 1 - m * sin(phi) ** 2, 1) + 1 / 3 * n * sin(
         phi
-    ) ** 3 * elliprj(cos(phi) ** 2, 1 - m * sin(phi) ** 2, 1, 1 - n * sin(phi) ** 2)
+    ) ** 3 * elliprj(cos(phi) ** 2, 1 - m * sin(phi) ** 2, 1, cos(phi) ** 2 + nc * sin(phi) ** 2)
 
     result = where(
         num_cycles % 2 == 0,
-        num_cycles * _ellippi(n, m) + integral,
-        (num_cycles + 1) * _ellippi(n, m) - integral,
+        num_cycles * _ellippi(n, m, nc) + integral,
+        (num_cycles + 1) * _ellippi(n, m, nc) - integral,
     )
 
     # return scalar for scalar input
@@ -228,7 +236,7 @@ def theta_frequency(a, p, e, x, constants=None):
     # equation 13
     k_theta = sqrt(z_minus / z_plus)
     # simplified form of epsilon0*z_plus
-    e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
+    e0zp = (Q + L**2 + a**2 * (1 - E**2) * (1 - z_minus)) / L**2
 
     # equation 15
     return pi * L * sqrt(e0zp) / (2 * ellipk(k_theta**2))
@@ -294,7 +302,7 @@ def phi_frequency(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None
     upsilon_theta = copysign(upsilon_theta, L)
 
     # simplified form of epsilon0*z_plus
-    e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
+    e0zp = (Q + L**2 + a**2 * (1 - E**2) * (1 - z_minus)) / L**2
 
     r_plus = 1 + sqrt(1 - a**2)
     r_minus = 1 - sqrt(1 - a**2)
@@ -311,7 +319,7 @@ def phi_frequency(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None
 
     # equation 21
     return 2 * upsilon_theta / (pi * sqrt(e0zp)) * _ellippi(
-        z_minus, k_theta**2
+        z_minus, k_theta**2, _polar_complement(a, E, L, Q)
     ) + 2 * a * upsilon_r / (
         pi * (r_plus - r_minus) * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4))
     ) * (
@@ -374,12 +382,9 @@ def gamma(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None):
     E, L, Q = constants
     r1, r2, r3, r4 = stable_radial_roots(a, p, e, x, constants)
     z_minus, z_plus = stable_polar_roots(a, p, e, x, constants)
-    epsilon0 = a**2 * (1 - E**2) / L**2
     # simplified form of a**2*sqrt(z_plus/epsilon0)
     a2sqrt_zp_over_e0 = (
-        L**2 / ((1 - E**2) * sqrt(1 - z_minus))
-        if a == 0
-        else a**2 * z_plus / sqrt(epsilon0 * z_plus)
+        abs(L) * sqrt(Q + L**2 + a**2 * (1 - E**2) * (1 - z_minus)) / (1 - E**2)
     )
 
     # compute frequencies if they are not passed in
@@ -607,7 +612,7 @@ def _theta_frequency_from_constants(a, constants, radial_roots, polar_roots):
     # equation 13
     k_theta = sqrt(z_minus / z_plus)
     # simplified form of epsilon0*z_plus
-    e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
+    e0zp = (Q + L**2 + a**2 * (1 - E**2) * (1 - z_minus)) / L**2
 
     # equation 15
     return pi * L * sqrt(e0zp) / (2 * ellipk(k_theta**2))
@@ -659,7 +664,7 @@ def _phi_frequency_from_constants(
         upsilon_theta = _theta_frequency_from_constants(a, constants, radial_roots, polar_roots)
 
     # simplified form of epsilon0*z_plus
-    e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
+    e0zp = (Q + L**2 + a**2 * (1 - E**2) * (1 - z_minus)) / L**2
 
     r_plus = 1 + sqrt(1 - a**2)
     r_minus = a**2 / (1 + sqrt(1 - a**2))
@@ -676,7 +681,7 @@ def _phi_frequency_from_constants(
 
     # equation 21
     return 2 * upsilon_theta / (pi * sqrt(e0zp)) * _ellippi(
-        z_minus, k_theta**2
+        z_minus, k_theta**2, _polar_complement(a, E, L, Q)
     ) + 2 * a * upsilon_r / (
         pi * (r_plus - r_minus) * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4))
     ) * (
@@ -725,12 +730,9 @@ def _gamma_from_constants(
     if E == 1:
         return inf
 
-    epsilon0 = a**2 * (1 - E**2) / L**2
     # simplified form of a**2*sqrt(z_plus/epsilon0)
     a2sqrt_zp_over_e0 = (
-        L**2 / ((1 - E**2) * sqrt(1 - z_minus))
-        if a == 0
-        else a**2 * z_plus / sqrt(epsilon0 * z_plus)
+        abs(L) * sqrt(Q + L**2 + a**2 * (1 - E**2) * (1 - z_minus)) / (1 - E**2)
     )
 
     # compute frequencies if they are not passed in
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 942dab7..043525e 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -250,7 +250,7 @@ def stable_orbit_initial_phases(
 
         k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
         y_theta = cos(theta0) / sqrt(z_minus)
-        e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
+        e0zp = (Q + L**2 + a**2 * (1 - E**2) * (1 - z_minus)) / L**2
 
         # Fujita and Hikida equation 37
         lambda_theta0 = 1 / (abs(L) * sqrt(e0zp)) * ellipkinc(arcsin(y_theta), k_theta**2)
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index e5be344..333e2ee 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -3,7 +3,7 @@ from numpy import sqrt, sin, cos, arctan, arccos, log, pi, rint
 from numpy.polynomial import Polynomial
 import numpy as np
 from scipy.special import ellipj, ellipeinc, ellipk, elliprd, elliprj
-from .constants import _polar_roots_from_constants
+from .constants import _polar_roots_from_constants, _polar_complement
 from .frequencies import _mino_frequencies_from_constants, _ellippiinc
 from .stable import *
 from .orbit import Orbit
@@ -440,6 +440,7 @@ def plunging_polar_solutions(a, E, L, Q):
         t_\theta(q_\theta), \phi_\theta(q_\theta))`
     """
     z_minus, z_plus = _polar_roots_from_constants(a, E, L, Q)
+    z_comp = _polar_complement(a, E, L, Q)
     z1 = sqrt(z_minus)
     z2 = sqrt(a**2 * (1 - E**2) * z_plus)
     k_theta = a * sqrt(1 - E**2) * z1 / z2
@@ -472,7 +473,7 @@ def plunging_polar_solutions(a, E, L, Q):
         # equation 28
         sn, cn, dn, xi_theta = ellipj(z2 * mino_time, k_theta**2)
         # equation 31
-        return L / z2 * _ellippiinc(xi_theta, z1**2, k_theta**2)
+        return L / z2 * _ellippiinc(xi_theta, z_minus, k_theta**2, z_comp)
 
     return theta, t_theta, phi_theta
 
diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 2eaac1f..b6dd91f 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -1,6 +1,6 @@
 """Module implementing the stable bound orbit solutions of `Fujita and Hikida <https://doi.org/10.48550/arXiv.0906.1420>`_"""
 from .constants import *
-from .constants import _standardize_params
+from .constants import _standardize_params, _polar_complement
 from .frequencies import _ellippi, _ellippiinc, _ellipeinc, _ellipj3, _ellipj3inc
 from .frequencies import *
 from scipy.special import ellipj
@@ -407,15 +407,11 @@ def polar_solutions(a, constants, polar_roots):
     """
     E, L, Q = constants
     z_minus, z_plus = polar_roots
-    epsilon0 = a**2 * (1 - E**2) / L**2
+    z_comp = _polar_complement(a, E, L, Q)
     # simplified form of epsilon0*z_plus
-    e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
+    e0zp = (Q + L**2 + a**2 * (1 - E**2) * (1 - z_minus)) / L**2
     # simplified form of a**2*sqrt(z_plus/epsilon0)
-    a2sqrt_zp_over_e0 = (
-        L**2 / ((1 - E**2) * sqrt(1 - z_minus))
-        if a == 0
-        else a**2 * z_plus / sqrt(epsilon0 * z_plus)
-    )
+    a2sqrt_zp_over_e0 = L**2 * sqrt(e0zp) / (1 - E**2)
 
     # equation 13
     k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
@@ -451,8 +447,8 @@ def polar_solutions(a, constants, polar_roots):
             * 1
             / sqrt(e0zp)
             * (
-                _ellippiinc(psi_theta, z_minus, k_theta**2)
-                - 2 / pi * _ellippi(z_minus, k_theta**2) * (q_theta + pi / 2)
+                _ellippiinc(psi_theta, z_minus, k_theta**2, z_comp)
+                - 2 / pi * _ellippi(z_minus, k_theta**2, z_comp) * (q_theta + pi / 2)
             )
         )
 
-- 
2.43.0


From 8093d3baab9cbfd242ec7c3a4cff4d6f3eb1fc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:52 +0000
Subject: [PATCH 33/40] fix: theta and four-velocity keep their digits near the
 axis

---
 kerrgeopy/plunge.py    |  4 ++--
 kerrgeopy/spacetime.py | 14 ++++++--------
 kerrgeopy/stable.py    |  4 ++--
 3 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 333e2ee..851e219 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -1,5 +1,5 @@
 """Module implementing the plunging orbit solutions of `Dyson and van de Meent <https://doi.org/10.48550/arXiv.2302.03704>`_"""
-from numpy import sqrt, sin, cos, arctan, arccos, log, pi, rint
+from numpy import sqrt, sin, cos, arctan, arctan2, log, pi, rint
 from numpy.polynomial import Polynomial
 import numpy as np
 from scipy.special import ellipj, ellipeinc, ellipk, elliprd, elliprj
@@ -452,7 +452,7 @@ def plunging_polar_solutions(a, E, L, Q):
         # equation 28
         sn, cn, dn, xi_theta = ellipj(z2 * mino_time, k_theta**2)
         # equation 27
-        return arccos(z1 * sn)
+        return arctan2(sqrt(cn**2 + z_comp * sn**2), z1 * sn)
 
     def t_theta(q_theta):
         mino_time = q_theta / upsilon_theta
diff --git a/kerrgeopy/spacetime.py b/kerrgeopy/spacetime.py
index 1a70781..bd0d05d 100644
--- a/kerrgeopy/spacetime.py
+++ b/kerrgeopy/spacetime.py
@@ -160,11 +160,9 @@ class KerrSpacetime:
         R = lambda r: (E * (r**2 + a**2) - a * L) ** 2 - (r**2 - 2 * r + a**2) * (
             r**2 + (a * E - L) ** 2 + Q
         )
-        # polar polynomial
-        Z = (
-            lambda z: Q
-            - (Q + a**2 * (1 - E**2) + L**2) * z**2
-            + a**2 * (1 - E**2) * z**4
+        # polar polynomial, written so that nothing cancels near the equator or the axis
+        Z = lambda theta: Q * sin(theta) ** 2 - cos(theta) ** 2 * (
+            a**2 * (1 - E**2) * sin(theta) ** 2 + L**2
         )
         
         def u_t(time):
@@ -175,7 +173,7 @@ class KerrSpacetime:
                 / sigma
                 * (
                     (r(time) ** 2 + a**2) / delta * (E * (r(time) ** 2 + a**2) - a * L)
-                    - a**2 * E * (1 - cos(theta(time)) ** 2)
+                    - a**2 * E * sin(theta(time)) ** 2
                     + a * L
                 )
             )
@@ -190,7 +188,7 @@ class KerrSpacetime:
             sigma = r(time) ** 2 + a**2 * cos(theta(time)) ** 2
             return (
                 np.copysign(1, sin(q_theta))
-                * sqrt(abs(Z(cos(theta(time)))))
+                * sqrt(abs(Z(theta(time))))
                 / (sigma * sin(theta(time)))
             )
 
@@ -202,7 +200,7 @@ class KerrSpacetime:
                 / sigma
                 * (
                     a / delta * (E * (r(time) ** 2 + a**2) - a * L)
-                    + L / (1 - cos(theta(time)) ** 2)
+                    + L / sin(theta(time)) ** 2
                     - a * E
                 )
             )
diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index b6dd91f..6703bf4 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -5,7 +5,7 @@ from .frequencies import _ellippi, _ellippiinc, _ellipeinc, _ellipj3, _ellipj3in
 from .frequencies import *
 from scipy.special import ellipj
 from .orbit import Orbit
-from numpy import pi, arccos
+from numpy import pi, arctan2
 
 
 class StableOrbit(Orbit):
@@ -420,7 +420,7 @@ def polar_solutions(a, constants, polar_roots):
         u_theta = 2 / pi * ellipk(k_theta**2) * (q_theta + pi / 2)
         sn, cn, dn, ph = ellipj(u_theta, k_theta**2)
         # equation 38
-        return arccos(sqrt(z_minus) * sn)
+        return arctan2(sqrt(cn**2 + z_comp * sn**2), sqrt(z_minus) * sn)
 
     def t_theta(q_theta):
         u_theta = 2 / pi * ellipk(k_theta**2) * (q_theta + pi / 2)
-- 
2.43.0


From 62926483d3454a19a527098d7c376c39501d4516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:03 +0000
Subject: [PATCH 34/40] fix: constants from initial data keep their digits near
 the axis

---
 kerrgeopy/initial_conditions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 043525e..c1307c2 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -40,10 +40,10 @@ def constants_from_initial_conditions(a, initial_position, initial_velocity):
     A = np.array(
         [
             [
-                (r0**2 + a**2) ** 2 / delta - a**2 * (1 - cos(theta0) ** 2),
+                (r0**2 + a**2) ** 2 / delta - a**2 * sin(theta0) ** 2,
                 a - a * (r0**2 + a**2) / delta,
             ],
-            [a * (r0**2 + a**2) / delta - a, 1 / (1 - cos(theta0) ** 2) - a**2 / delta],
+            [a * (r0**2 + a**2) / delta - a, 1 / sin(theta0) ** 2 - a**2 / delta],
         ]
     )
     b = np.array([sigma * dt0, sigma * dphi0])
@@ -52,8 +52,8 @@ def constants_from_initial_conditions(a, initial_position, initial_velocity):
     # solve for Q by substituting E and L back into the theta equation
     Q = (
         (sigma * dtheta0 * sin(theta0)) ** 2
-        + cos(theta0) ** 2 * (a**2 * (1 - E**2) * (1 - cos(theta0) ** 2) + L**2)
-    ) / (1 - cos(theta0) ** 2)
+        + cos(theta0) ** 2 * (a**2 * (1 - E**2) * sin(theta0) ** 2 + L**2)
+    ) / sin(theta0) ** 2
 
     return E, L, Q
 
-- 
2.43.0


From 1ddee277029e40539ab43e094af9fcd1286013fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:24 +0000
Subject: [PATCH 35/40] fix: plunges through the axis (L = 0) have a defined
 trajectory

---
 kerrgeopy/frequencies.py | 39 +++++++++++++++++++++++----------------
 kerrgeopy/plunge.py      |  3 +++
 kerrgeopy/stable.py      | 22 +++++++++++-----------
 3 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 5b07e06..c9bfca8 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -4,7 +4,7 @@ Frequencies are computed using the method derived in `Fujita and Hikida <https:/
 from .constants import _standardize_params, _polar_roots_from_constants, _polar_complement
 from .constants import *
 from scipy.special import ellipk, ellipe, elliprj, elliprf, elliprd
-from numpy import sin, cos, sqrt, pi, floor, rint, where
+from numpy import sin, cos, sqrt, pi, floor, rint, where, copysign
 
 
 def _ellipeinc(phi, m):
@@ -611,11 +611,11 @@ def _theta_frequency_from_constants(a, constants, radial_roots, polar_roots):
 
     # equation 13
     k_theta = sqrt(z_minus / z_plus)
-    # simplified form of epsilon0*z_plus
-    e0zp = (Q + L**2 + a**2 * (1 - E**2) * (1 - z_minus)) / L**2
+    # simplified form of L**2*epsilon0*z_plus
+    L2e0zp = Q + L**2 + a**2 * (1 - E**2) * (1 - z_minus)
 
     # equation 15
-    return pi * L * sqrt(e0zp) / (2 * ellipk(k_theta**2))
+    return copysign(pi * sqrt(L2e0zp) / (2 * ellipk(k_theta**2)), L)
 
 
 def _phi_frequency_from_constants(
@@ -663,8 +663,20 @@ def _phi_frequency_from_constants(
     if upsilon_theta is None:
         upsilon_theta = _theta_frequency_from_constants(a, constants, radial_roots, polar_roots)
 
-    # simplified form of epsilon0*z_plus
-    e0zp = (Q + L**2 + a**2 * (1 - E**2) * (1 - z_minus)) / L**2
+    # simplified form of L**2*epsilon0*z_plus
+    L2e0zp = Q + L**2 + a**2 * (1 - E**2) * (1 - z_minus)
+    z_comp = _polar_complement(a, E, L, Q)
+    # the polar part is equal to upsilon_theta for orbits that cross the axis
+    if z_comp == 0:
+        upsilon_phi_theta = upsilon_theta
+    else:
+        upsilon_phi_theta = (
+            2
+            * abs(L)
+            * upsilon_theta
+            / (pi * sqrt(L2e0zp))
+            * _ellippi(z_minus, z_minus / z_plus, z_comp)
+        )
 
     r_plus = 1 + sqrt(1 - a**2)
     r_minus = a**2 / (1 + sqrt(1 - a**2))
@@ -676,13 +688,10 @@ def _phi_frequency_from_constants(
     g_minus = (r1 - r2) * (r2 - r3) / ((r1 - r3) * (r2 - r_minus))
 
     # equation 13
-    k_theta = sqrt(z_minus / z_plus)
     k_r = sqrt((r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4)))
 
     # equation 21
-    return 2 * upsilon_theta / (pi * sqrt(e0zp)) * _ellippi(
-        z_minus, k_theta**2, _polar_complement(a, E, L, Q)
-    ) + 2 * a * upsilon_r / (
+    return upsilon_phi_theta + 2 * a * upsilon_r / (
         pi * (r_plus - r_minus) * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4))
     ) * (
         (2 * E * r_plus - a * L)
@@ -730,10 +739,8 @@ def _gamma_from_constants(
     if E == 1:
         return inf
 
-    # simplified form of a**2*sqrt(z_plus/epsilon0)
-    a2sqrt_zp_over_e0 = (
-        abs(L) * sqrt(Q + L**2 + a**2 * (1 - E**2) * (1 - z_minus)) / (1 - E**2)
-    )
+    # simplified form of a**2*sqrt(z_plus/epsilon0)/abs(L)
+    a2sqrt_zp_over_e0 = sqrt(Q + L**2 + a**2 * (1 - E**2) * (1 - z_minus)) / (1 - E**2)
 
     # compute frequencies if they are not passed in
     if upsilon_r is None:
@@ -761,9 +768,9 @@ def _gamma_from_constants(
         + 2
         * a2sqrt_zp_over_e0
         * E
-        * upsilon_theta
+        * abs(upsilon_theta)
         * (ellipk(k_theta**2) - ellipe(k_theta**2))
-        / (pi * L)
+        / pi
         + 2
         * upsilon_r
         / (pi * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4)))
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 851e219..bfef554 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -473,6 +473,9 @@ def plunging_polar_solutions(a, E, L, Q):
         # equation 28
         sn, cn, dn, xi_theta = ellipj(z2 * mino_time, k_theta**2)
         # equation 31
+        # an orbit through the axis changes phi by pi at each crossing
+        if z_comp == 0:
+            return pi * rint(xi_theta / pi)
         return L / z2 * _ellippiinc(xi_theta, z_minus, k_theta**2, z_comp)
 
     return theta, t_theta, phi_theta
diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 6703bf4..0ab1344 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -5,7 +5,7 @@ from .frequencies import _ellippi, _ellippiinc, _ellipeinc, _ellipj3, _ellipj3in
 from .frequencies import *
 from scipy.special import ellipj
 from .orbit import Orbit
-from numpy import pi, arctan2
+from numpy import pi, arctan2, rint
 
 
 class StableOrbit(Orbit):
@@ -408,10 +408,10 @@ def polar_solutions(a, constants, polar_roots):
     E, L, Q = constants
     z_minus, z_plus = polar_roots
     z_comp = _polar_complement(a, E, L, Q)
-    # simplified form of epsilon0*z_plus
-    e0zp = (Q + L**2 + a**2 * (1 - E**2) * (1 - z_minus)) / L**2
-    # simplified form of a**2*sqrt(z_plus/epsilon0)
-    a2sqrt_zp_over_e0 = L**2 * sqrt(e0zp) / (1 - E**2)
+    # simplified form of L**2*epsilon0*z_plus
+    L2e0zp = Q + L**2 + a**2 * (1 - E**2) * (1 - z_minus)
+    # simplified form of a**2*sqrt(z_plus/epsilon0)/abs(L)
+    a2sqrt_zp_over_e0 = sqrt(L2e0zp) / (1 - E**2)
 
     # equation 13
     k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
@@ -427,10 +427,8 @@ def polar_solutions(a, constants, polar_roots):
         sn, cn, dn, psi_theta = ellipj(u_theta, k_theta**2)
         # equation 39
         return (
-            sign(L)
-            * a2sqrt_zp_over_e0
+            a2sqrt_zp_over_e0
             * E
-            / L
             * (
                 2 / pi * ellipe(k_theta**2) * (q_theta + pi / 2)
                 - _ellipeinc(psi_theta, k_theta**2)
@@ -441,11 +439,13 @@ def polar_solutions(a, constants, polar_roots):
         sn, cn, dn, psi_theta = ellipj(
             2 / pi * ellipk(k_theta**2) * (q_theta + pi / 2), k_theta**2
         )
+        # an orbit through the axis changes phi by pi at each crossing
+        if z_comp == 0:
+            return pi * rint(psi_theta / pi) - (q_theta + pi / 2)
         # equation 39
         return (
-            sign(L)
-            * 1
-            / sqrt(e0zp)
+            L
+            / sqrt(L2e0zp)
             * (
                 _ellippiinc(psi_theta, z_minus, k_theta**2, z_comp)
                 - 2 / pi * _ellippi(z_minus, k_theta**2, z_comp) * (q_theta + pi / 2)
-- 
2.43.0


From b9cced8789a5d494ade5c89084710c0046616e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:38 +0000
Subject: [PATCH 36/40] fix: real plunges through the axis have phases and an
 azimuthal frequency for L = 0 of either sign

---
 kerrgeopy/frequencies.py        | 2 +-
 kerrgeopy/initial_conditions.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index c9bfca8..03e2f83 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -668,7 +668,7 @@ def _phi_frequency_from_constants(
     z_comp = _polar_complement(a, E, L, Q)
     # the polar part is equal to upsilon_theta for orbits that cross the axis
     if z_comp == 0:
-        upsilon_phi_theta = upsilon_theta
+        upsilon_phi_theta = abs(upsilon_theta)
     else:
         upsilon_phi_theta = (
             2
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index c1307c2..2d27ffb 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -250,10 +250,11 @@ def stable_orbit_initial_phases(
 
         k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
         y_theta = cos(theta0) / sqrt(z_minus)
-        e0zp = (Q + L**2 + a**2 * (1 - E**2) * (1 - z_minus)) / L**2
+        # L^2 times the e0zp of the paper, which is also defined when L = 0
+        L2e0zp = Q + L**2 + a**2 * (1 - E**2) * (1 - z_minus)
 
         # Fujita and Hikida equation 37
-        lambda_theta0 = 1 / (abs(L) * sqrt(e0zp)) * ellipkinc(arcsin(y_theta), k_theta**2)
+        lambda_theta0 = 1 / sqrt(L2e0zp) * ellipkinc(arcsin(y_theta), k_theta**2)
 
         # Fujita and Hikida equation 36
         if dtheta0 < 0:
-- 
2.43.0


From cd98dd9ca7e77e9e618f8a73b2775158d737dc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:24 +0000
Subject: [PATCH 37/40] fix: numpy integers and low precision numbers as
 arguments overflowed or lost digits (answers depended on the numeric type)

---
 kerrgeopy/_precision.py         | 34 +++++++++++++++++++++++++++++++++
 kerrgeopy/constants.py          | 14 ++++++++++++++
 kerrgeopy/frequencies.py        |  8 ++++++++
 kerrgeopy/initial_conditions.py |  5 +++++
 kerrgeopy/orbit.py              |  8 ++++++++
 kerrgeopy/plunge.py             | 18 +++++++++++++++++
 kerrgeopy/spacetime.py          |  5 +++++
 kerrgeopy/stable.py             | 13 +++++++++++++
 kerrgeopy/units.py              | 18 +++++++++++++++++
 9 files changed, 123 insertions(+)
 create mode 100644 kerrgeopy/_precision.py

diff --git a/kerrgeopy/_precision.py b/kerrgeopy/_precision.py
new file mode 100644
index 0000000..18e16f7
--- /dev/null
+++ b/kerrgeopy/_precision.py
@@ -0,0 +1,34 @@
+"""Module containing the conversion of numerical arguments to double precision"""
+from functools import wraps
+import numpy as np
+
+
+def _to_double(value):
+    """Converts numpy numbers and arrays of any integer or floating point type, and those contained
+    in a tuple or list, to double precision. Leaves everything else unchanged.
+    """
+    if isinstance(value, np.generic):
+        return float(value) if value.dtype.kind in "biuf" else value
+    if isinstance(value, np.ndarray):
+        if value.dtype.kind not in "biuf":
+            return value
+        return value.astype(float, copy=False) if value.ndim > 0 else float(value)
+    if type(value) in (tuple, list):
+        return type(value)(_to_double(item) for item in value)
+    return value
+
+
+def _double_precision(function):
+    """Decorator that evaluates a function in double precision for any numeric type of its
+    arguments. Small integer types would otherwise overflow and small floating point types
+    lose digits in the powers and products inside the function.
+    """
+
+    @wraps(function)
+    def wrapper(*args, **kwargs):
+        return function(
+            *(_to_double(value) for value in args),
+            **{name: _to_double(value) for name, value in kwargs.items()},
+        )
+
+    return wrapper
diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index effdae4..06d806a 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -7,8 +7,10 @@ from .units import *
 from scipy.interpolate import RectBivariateSpline
 import numpy as np
 from numpy.polynomial import Polynomial
+from ._precision import _double_precision
 
 
+@_double_precision
 def stable_radial_roots(a, p, e, x, constants=None):
     """Computes the radial roots for a stable bound orbit as defined in 
     equation 10 of `Fujita and Hikida <https://doi.org/10.48550/arXiv.0906.1420>`_. 
@@ -50,6 +52,7 @@ def stable_radial_roots(a, p, e, x, constants=None):
     return r1, r2, r3, r4
 
 
+@_double_precision
 def plunging_radial_roots(a, E, L, Q):
     """Computes the radial roots for a plunging orbit. If all roots are real, 
     roots are sorted such that the motion is between r1 and r2 and roots are 
@@ -123,6 +126,7 @@ def plunging_radial_roots(a, E, L, Q):
     return r1, r2, r3, r4
 
 
+@_double_precision
 def stable_polar_roots(a, p, e, x, constants=None):
     r"""Computes the polar roots for a stable bound orbit as defined in equation 
     10 of `Fujita and Hikida <https://doi.org/10.48550/arXiv.0906.1420>`_. 
@@ -260,6 +264,7 @@ def _standardize_params(a, x):
     return abs(a), x if a >= 0 else -x
 
 
+@_double_precision
 def energy(a, p, e, x):
     """Computes the dimensionless energy of a bound orbit with the given parameters
 
@@ -347,6 +352,7 @@ def energy(a, p, e, x):
     )
 
 
+@_double_precision
 def angular_momentum(a, p, e, x, E=None):
     """Computes the dimensionless angular momentum 
     of a bound orbit with the given parameters
@@ -397,6 +403,7 @@ def angular_momentum(a, p, e, x, E=None):
     return (-E * g2 - sqrt_term) / h2
 
 
+@_double_precision
 def carter_constant(a, p, e, x, E=None, L=None):
     """Computes the dimensionless carter constant 
     of a bound orbit with the given parameters
@@ -460,6 +467,7 @@ def carter_constant(a, p, e, x, E=None, L=None):
     return z**2 * (a**2 * (1 - E**2) + L**2 / x**2)
 
 
+@_double_precision
 def constants_of_motion(a, p, e, x):
     """Computes the dimensionless energy, angular momentum, and 
     Carter constant of a bound orbit with the given parameters
@@ -546,6 +554,7 @@ def _polar_complement(a, E, L, Q):
     return 2 * L**2 / (s + b) if b >= 0 else (s - b) / (2 * beta)
 
 
+@_double_precision
 def apex_from_constants(a, E, L, Q):
     r"""Computes the orbital parameters :math:`(a,p,e,x)` for a 
     stable bound orbit with the given constants of motion
@@ -699,6 +708,7 @@ def _S(p, a, e, x):
     # fmt: on
 
 
+@_double_precision
 def separatrix(a, e, x):
     """Returns the value of p at the separatrix for the given orbital parameters 
     computed using the bracked root finding method described in 
@@ -762,6 +772,7 @@ def separatrix(a, e, x):
     return root_scalar(_S, args=(a, e, x), bracket=bracket).root
 
 
+@_double_precision
 def fast_separatrix(a, grid_spacing=0.01):
     """Constructs a faster separatrix function for a given value of :math:`a` 
     by interpolating over a grid of :math:`e` and :math:`x` values.
@@ -798,6 +809,7 @@ def fast_separatrix(a, grid_spacing=0.01):
     return interpolator
 
 
+@_double_precision
 def is_stable(a, p, e, x):
     """Tests whether or not the given orbital parameters define a stable bound orbit
 
@@ -821,6 +833,7 @@ def is_stable(a, p, e, x):
     return False
 
 
+@_double_precision
 def valid_params(a, e, x):
     """Tests whether the given parameters fall into the allowed ranges
 
@@ -842,6 +855,7 @@ def valid_params(a, e, x):
     return False
 
 
+@_double_precision
 def scale_constants(constants, M, mu):
     """Scales the dimensionless constants of motion to the given mass parameters
 
diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 03e2f83..32cf0c5 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -5,6 +5,7 @@ from .constants import _standardize_params, _polar_roots_from_constants, _polar_
 from .constants import *
 from scipy.special import ellipk, ellipe, elliprj, elliprf, elliprd
 from numpy import sin, cos, sqrt, pi, floor, rint, where, copysign
+from ._precision import _double_precision
 
 
 def _ellipeinc(phi, m):
@@ -142,6 +143,7 @@ def _ellipj3inc(phi, n, m):
     )
 
 
+@_double_precision
 def r_frequency(a, p, e, x, constants=None):
     """Computes the frequency of motion in r in Mino time
 
@@ -188,6 +190,7 @@ def r_frequency(a, p, e, x, constants=None):
     return pi * sqrt((1 - E**2) * (r1 - r3) * (r2 - r4)) / (2 * ellipk(k_r**2))
 
 
+@_double_precision
 def theta_frequency(a, p, e, x, constants=None):
     """Computes the frequency of motion in theta in Mino time
 
@@ -242,6 +245,7 @@ def theta_frequency(a, p, e, x, constants=None):
     return pi * L * sqrt(e0zp) / (2 * ellipk(k_theta**2))
 
 
+@_double_precision
 def phi_frequency(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None):
     """Computes the frequency of motion in phi in Mino time
 
@@ -332,6 +336,7 @@ def phi_frequency(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None
     )
 
 
+@_double_precision
 def gamma(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None):
     """Computes the average rate at which observer time accumulates in Mino time
 
@@ -444,6 +449,7 @@ def gamma(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None):
     )
 
 
+@_double_precision
 def mino_frequencies(a, p, e, x):
     r"""Computes frequencies of orbital motion in Mino time
 
@@ -473,6 +479,7 @@ def mino_frequencies(a, p, e, x):
     return upsilon_r, abs(upsilon_theta), upsilon_phi, Gamma
 
 
+@_double_precision
 def fundamental_frequencies(a, p, e, x):
     r"""Computes frequencies of orbital motion in Boyer-Lindquist time
 
@@ -501,6 +508,7 @@ def fundamental_frequencies(a, p, e, x):
     return upsilon_r / Gamma, abs(upsilon_theta) / Gamma, upsilon_phi / Gamma
 
 
+@_double_precision
 def plunging_mino_frequencies(a, E, L, Q):
     r"""Computes the radial and polar mino frequencies for a plunging orbit.
 
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 2d27ffb..426bb98 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -9,8 +9,10 @@ import numpy as np
 from numpy import sin, cos, sqrt, pi, arcsin, arccos, clip
 from numpy.polynomial import Polynomial
 from scipy.special import ellipkinc
+from ._precision import _double_precision
 
 
+@_double_precision
 def constants_from_initial_conditions(a, initial_position, initial_velocity):
     r"""Computes the constants of motion :math:`(\mathcal{E},\mathcal{L},\mathcal{Q})` 
     of the orbit with the given initial conditions.
@@ -58,6 +60,7 @@ def constants_from_initial_conditions(a, initial_position, initial_velocity):
     return E, L, Q
 
 
+@_double_precision
 def is_stable(a, initial_position, initial_velocity, constants=None, tol=1e-4):
     r"""Tests whether the orbit with the given initial conditions is stable
 
@@ -129,6 +132,7 @@ def is_stable(a, initial_position, initial_velocity, constants=None, tol=1e-4):
     raise ValueError("Not a physical orbit")
 
 
+@_double_precision
 def stable_orbit_initial_phases(
     a,
     initial_position,
@@ -270,6 +274,7 @@ def stable_orbit_initial_phases(
     return q_t0, q_r0, q_theta0, q_phi0
 
 
+@_double_precision
 def plunging_orbit_initial_phases(
     a, initial_position, initial_velocity, constants=None, radial_roots=None, tol=1e-4
 ):
diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 4f0889a..a7f833b 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -17,6 +17,7 @@ from mpl_toolkits.mplot3d.art3d import Line3DCollection
 from matplotlib.animation import FuncAnimation
 from matplotlib.animation import FFMpegWriter
 from tqdm import tqdm
+from ._precision import _double_precision
 
 
 class Orbit:
@@ -59,6 +60,7 @@ class Orbit:
         dimensionless polar orbital frequency in Mino time
     """
 
+    @_double_precision
     def __init__(self, a, initial_position, initial_velocity, M=None, mu=None):
         self.a, self.initial_position, self.initial_velocity, self.M, self.mu = (
             a,
@@ -113,6 +115,7 @@ class Orbit:
                 a, initial_position, initial_velocity
             )
 
+    @_double_precision
     def trajectory_deltas(self, initial_phases=None):
         r"""Computes the trajectory deltas :math:`t_r(q_r)`, :math:`t_\theta(q_\theta)`,
         :math:`\phi_r(q_r)` and :math:`\phi_\theta(q_\theta)`
@@ -177,6 +180,7 @@ class Orbit:
             lambda q_theta: phi_theta(q_theta + q_theta0),
         )
 
+    @_double_precision
     def trajectory(
         self, initial_phases=None, distance_units="natural", time_units="natural"
     ):
@@ -274,6 +278,7 @@ class Orbit:
 
         raise ValueError("units must be one of 'natural', 'mks', or 'cgs'")
 
+    @_double_precision
     def four_velocity(self, initial_phases=None):
         r"""Computes the four velocity of the orbit as a function of Mino time using
         the geodesic equation.
@@ -307,6 +312,7 @@ class Orbit:
             initial_phases,
         )
 
+    @_double_precision
     def _four_velocity_norm(self, initial_phases=None):
         r"""Computes the norm of the four velocity of the orbit as a function of Mino time
 
@@ -336,6 +342,7 @@ class Orbit:
 
         return norm
 
+    @_double_precision
     def _numerical_four_velocity_norm(self, dx=1e-6, initial_phases=None):
         r"""Computes the norm of the four velocity of the orbit as a function of Mino time
 
@@ -365,6 +372,7 @@ class Orbit:
 
         return norm
 
+    @_double_precision
     def numerical_four_velocity(self, dx=1e-6, initial_phases=None):
         r"""Computes the four velocity of the orbit as a function of Mino time using
         numerical differentiation.
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index bfef554..14fb5c9 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -8,6 +8,7 @@ from .frequencies import _mino_frequencies_from_constants, _ellippiinc
 from .stable import *
 from .orbit import Orbit
 from .units import *
+from ._precision import _double_precision
 
 
 class PlungingOrbit(Orbit):
@@ -59,6 +60,7 @@ class PlungingOrbit(Orbit):
         polar Mino frequency
     """
 
+    @_double_precision
     def __init__(self, a, E, L, Q, initial_phases=(0, 0, 0, 0), M=None, mu=None):
         self.a, self.E, self.L, self.Q, self.initial_phases, self.M, self.mu = (
             a,
@@ -87,6 +89,7 @@ class PlungingOrbit(Orbit):
         self.initial_position = t(0), r(0), theta(0), phi(0)
         self.initial_velocity = u_t(0), u_r(0), u_theta(0), u_phi(0)
 
+    @_double_precision
     def trajectory_deltas(self, initial_phases=None):
         r"""Computes the trajectory deltas :math:`t_r(q_r)`, :math:`t_\theta(q_\theta)`, 
         :math:`\phi_r(q_r)` and :math:`\phi_\theta(q_\theta)`
@@ -127,6 +130,7 @@ class PlungingOrbit(Orbit):
             lambda q_theta: phi_theta(q_theta + q_theta0),
         )
 
+    @_double_precision
     def trajectory(self, initial_phases=None, distance_units="natural", time_units="natural"):
         r"""Computes the components of the trajectory as a function of mino time
 
@@ -156,6 +160,7 @@ class PlungingOrbit(Orbit):
         )
 
 
+@_double_precision
 def plunging_radial_integrals(a, E, L, Q):
     r"""Computes the radial integrals :math:`I_r`, :math:`I_{r^2}` and 
     :math:`I_{r_\pm}` defined in equation 39 of `Dyson and van de Meent 
@@ -222,6 +227,7 @@ def plunging_radial_integrals(a, E, L, Q):
         )
         return S, J
 
+    @_double_precision
     def I_r(q_r):
         # equation 43
         u = 2 * ellipk(k_r**2) * q_r / pi
@@ -235,6 +241,7 @@ def plunging_radial_integrals(a, E, L, Q):
             - r_half * eta_factor / sqrt(A * B * (1 - E**2)) * J
         )
 
+    @_double_precision
     def I_r2(q_r):
         # equation 43
         u = 2 * ellipk(k_r**2) * q_r / pi
@@ -253,6 +260,7 @@ def plunging_radial_integrals(a, E, L, Q):
         # equation 47
         return (r_half**2 - r_mean**2) * mino_time + 2 * r_mean * I_r(q_r) - r_half**2 * W2
 
+    @_double_precision
     def I_r_plus(q_r):
         # equation 43
         sn, cn, dn, xi_r = ellipj(2 * ellipk(k_r**2) * q_r / pi, k_r**2)
@@ -293,6 +301,7 @@ def plunging_radial_integrals(a, E, L, Q):
             )
         )
 
+    @_double_precision
     def I_r_minus(q_r):
         # equation 43
         sn, cn, dn, xi_r = ellipj(2 * ellipk(k_r**2) * q_r / pi, k_r**2)
@@ -336,6 +345,7 @@ def plunging_radial_integrals(a, E, L, Q):
     return I_r, I_r2, I_r_plus, I_r_minus
 
 
+@_double_precision
 def plunging_radial_solutions_complex(a, E, L, Q):
     r"""Computes the radial solutions :math:`r(q_r), t_r(q_r), \phi_r(q_r)` 
     from equation 50 and 51 of `Dyson and van de Meent <https://doi.org/10.48550
@@ -378,6 +388,7 @@ def plunging_radial_solutions_complex(a, E, L, Q):
 
     I_r, I_r2, I_r_plus, I_r_minus = plunging_radial_integrals(a, E, L, Q)
 
+    @_double_precision
     def r(q_r):
         # equation 43
         sn, cn, dn, xi_r = ellipj(2 * ellipk(k_r**2) * q_r / pi, k_r**2)
@@ -388,6 +399,7 @@ def plunging_radial_solutions_complex(a, E, L, Q):
             - 2 * A * B * (r2 - r1) * cn
         ) / (4 * A * B + (A - B) ** 2 * sn**2)
 
+    @_double_precision
     def t_r(q_r):
         mino_time = q_r / upsilon_r
         # equation 41
@@ -406,6 +418,7 @@ def plunging_radial_solutions_complex(a, E, L, Q):
             )
         )
 
+    @_double_precision
     def phi_r(q_r):
         mino_time = q_r / upsilon_r
         # equation 40
@@ -417,6 +430,7 @@ def plunging_radial_solutions_complex(a, E, L, Q):
     return r, t_r, phi_r
 
 
+@_double_precision
 def plunging_polar_solutions(a, E, L, Q):
     r"""Computes the polar solutions :math:`\theta(q_\theta), t_\theta(q_\theta), 
     \phi_\theta(q_\theta)` from equation 33 and 37 of `Dyson and van de Meent 
@@ -447,6 +461,7 @@ def plunging_polar_solutions(a, E, L, Q):
 
     upsilon_r, upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
 
+    @_double_precision
     def theta(q_theta):
         mino_time = q_theta / upsilon_theta
         # equation 28
@@ -454,6 +469,7 @@ def plunging_polar_solutions(a, E, L, Q):
         # equation 27
         return arctan2(sqrt(cn**2 + z_comp * sn**2), z1 * sn)
 
+    @_double_precision
     def t_theta(q_theta):
         mino_time = q_theta / upsilon_theta
         # equation 28
@@ -468,6 +484,7 @@ def plunging_polar_solutions(a, E, L, Q):
             )
         )
 
+    @_double_precision
     def phi_theta(q_theta):
         mino_time = q_theta / upsilon_theta
         # equation 28
@@ -481,6 +498,7 @@ def plunging_polar_solutions(a, E, L, Q):
     return theta, t_theta, phi_theta
 
 
+@_double_precision
 def plunging_trajectory(
     a, E, L, Q, initial_phases=(0, 0, 0, 0), M=None, distance_units="natural", time_units="natural"
 ):
diff --git a/kerrgeopy/spacetime.py b/kerrgeopy/spacetime.py
index bd0d05d..029b684 100644
--- a/kerrgeopy/spacetime.py
+++ b/kerrgeopy/spacetime.py
@@ -2,6 +2,7 @@
 from .constants import *
 from numpy import cos, sin
 import numpy as np
+from ._precision import _double_precision
 
 
 class KerrSpacetime:
@@ -27,6 +28,7 @@ class KerrSpacetime:
         radius of the outer horizon
     """
 
+    @_double_precision
     def __init__(self, a, M=None):
         self.a, self.M = a, M
         self.inner_horizon = 1 - sqrt(1 - self.a**2)
@@ -66,6 +68,7 @@ class KerrSpacetime:
         """
         return is_stable(self.a, p, e, x)
 
+    @_double_precision
     def metric(self, t, r, theta, phi):
         """Returns the matrix representation of the metric at a given point 
         expressed in Boyer-Lindquist coordinates.
@@ -98,6 +101,7 @@ class KerrSpacetime:
         )
         # fmt: on
 
+    @_double_precision
     def norm(self, t, r, theta, phi, v):
         """Computes the norm of a vector at a given point in spacetime 
         expressed in Boyer-Lindquist coordinates
@@ -122,6 +126,7 @@ class KerrSpacetime:
         """
         return np.dot(v, np.dot(self.metric(t, r, theta, phi), v))
 
+    @_double_precision
     def four_velocity(self, t, r, theta, phi, constants, upsilon_r, upsilon_theta, initial_phases):
         r"""Computes the four velocity of a given trajectory
 
diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 0ab1344..14b9c0c 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -6,6 +6,7 @@ from .frequencies import *
 from scipy.special import ellipj
 from .orbit import Orbit
 from numpy import pi, arctan2, rint
+from ._precision import _double_precision
 
 
 class StableOrbit(Orbit):
@@ -75,6 +76,7 @@ class StableOrbit(Orbit):
         time
     """
 
+    @_double_precision
     def __init__(self, a, p, e, x, initial_phases=(0, 0, 0, 0), M=None, mu=None):
         a, x = _standardize_params(a, x)
         self.a, self.p, self.e, self.x, self.initial_phases, self.M, self.mu = (
@@ -205,6 +207,7 @@ class StableOrbit(Orbit):
 
         raise ValueError("units must be one of 'natural', 'mks', 'cgs', or 'mHz'")
 
+    @_double_precision
     def trajectory_deltas(self, initial_phases=None):
         r"""Computes the trajectory deltas :math:`t_r(q_r)`, :math:`t_\theta(q_\theta)`, 
         :math:`\phi_r(q_r)` and :math:`\phi_\theta(q_\theta)`
@@ -239,6 +242,7 @@ class StableOrbit(Orbit):
             lambda q_theta: phi_theta(q_theta + q_theta0),
         )
 
+    @_double_precision
     def trajectory(self, initial_phases=None, distance_units="natural", time_units="natural"):
         r"""Computes the time, radial, polar, and azimuthal coordinates of the orbit 
         as a function of mino time.
@@ -270,6 +274,7 @@ class StableOrbit(Orbit):
         )
 
 
+@_double_precision
 def radial_solutions(a, constants, radial_roots):
     r"""Computes the radial solutions :math:`r(q_r), t^{(r)}(q_r), \phi^{(r)}(q_r)` 
     from equation 6 of `Fujita and Hikida <https://doi.org/10.48550/arXiv.0906.1420>`_. 
@@ -309,6 +314,7 @@ def radial_solutions(a, constants, radial_roots):
     # equation 13
     k_r = sqrt((r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4)))
 
+    @_double_precision
     def r(q_r):
         # equation 27
         u_r = ellipk(k_r**2) * q_r / pi
@@ -316,6 +322,7 @@ def radial_solutions(a, constants, radial_roots):
         sn, cn, dn, psi_r = ellipj(u_r, k_r**2)
         return (r3 * (r1 - r2) * sn**2 - r2 * (r1 - r3)) / ((r1 - r2) * sn**2 - (r1 - r3))
 
+    @_double_precision
     def t_r(q_r):
         # equation 27
         u_r = ellipk(k_r**2) * q_r / pi
@@ -359,6 +366,7 @@ def radial_solutions(a, constants, radial_roots):
             )
         )
 
+    @_double_precision
     def phi_r(q_r):
         # equation 27
         u_r = ellipk(k_r**2) * q_r / pi
@@ -383,6 +391,7 @@ def radial_solutions(a, constants, radial_roots):
     return r, t_r, phi_r
 
 
+@_double_precision
 def polar_solutions(a, constants, polar_roots):
     r"""Computes the polar solutions :math:`\theta(q_\theta), t^{(\theta)}(q_\theta), 
     \phi^{(\theta)}(q_\theta)` from equation 6 of `Fujita and Hikida 
@@ -416,12 +425,14 @@ def polar_solutions(a, constants, polar_roots):
     # equation 13
     k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
 
+    @_double_precision
     def theta(q_theta):
         u_theta = 2 / pi * ellipk(k_theta**2) * (q_theta + pi / 2)
         sn, cn, dn, ph = ellipj(u_theta, k_theta**2)
         # equation 38
         return arctan2(sqrt(cn**2 + z_comp * sn**2), sqrt(z_minus) * sn)
 
+    @_double_precision
     def t_theta(q_theta):
         u_theta = 2 / pi * ellipk(k_theta**2) * (q_theta + pi / 2)
         sn, cn, dn, psi_theta = ellipj(u_theta, k_theta**2)
@@ -435,6 +446,7 @@ def polar_solutions(a, constants, polar_roots):
             )
         )
 
+    @_double_precision
     def phi_theta(q_theta):
         sn, cn, dn, psi_theta = ellipj(
             2 / pi * ellipk(k_theta**2) * (q_theta + pi / 2), k_theta**2
@@ -455,6 +467,7 @@ def polar_solutions(a, constants, polar_roots):
     return theta, t_theta, phi_theta
 
 
+@_double_precision
 def stable_trajectory(
     a, p, e, x, initial_phases=(0, 0, 0, 0), M=None, distance_units="natural", time_units="natural"
 ):
diff --git a/kerrgeopy/units.py b/kerrgeopy/units.py
index db95bcd..882e9c3 100644
--- a/kerrgeopy/units.py
+++ b/kerrgeopy/units.py
@@ -1,4 +1,5 @@
 """Module containing functions to convert between geometrized units and physical units."""
+from ._precision import _double_precision
 # https://en.wikipedia.org/wiki/Geometrized_unit_system
 
 # speed of light in m/s
@@ -9,6 +10,7 @@ G = 6.67408e-11
 solar_mass = 1.98847e30
 
 
+@_double_precision
 def mass_in_kg(M):
     """
     Converts solar masses to kg
@@ -22,6 +24,7 @@ def mass_in_kg(M):
     return M * solar_mass
 
 
+@_double_precision
 def distance_in_meters(d, M):
     """Converts distance in geometrized units to meters
 
@@ -40,6 +43,7 @@ def distance_in_meters(d, M):
     return d * G / c**2 * mass_in_kg(M)
 
 
+@_double_precision
 def distance_in_cm(d, M):
     """Converts distance in geometrized units to centimeters
 
@@ -58,6 +62,7 @@ def distance_in_cm(d, M):
     return distance_in_meters(d, M) * 100
 
 
+@_double_precision
 def distance_in_km(d, M):
     """Converts distance in geometrized units to kilometers
 
@@ -74,6 +79,7 @@ def distance_in_km(d, M):
     return distance_in_meters(d, M) / 1000
 
 
+@_double_precision
 def distance_in_lightyears(d, M):
     """Converts distance in geometrized units to lightyears
 
@@ -92,6 +98,7 @@ def distance_in_lightyears(d, M):
     return distance_in_meters(d, M) / 9.461e15
 
 
+@_double_precision
 def distance_in_au(d, M):
     """Converts distance in geometrized units to astronomical units
 
@@ -110,6 +117,7 @@ def distance_in_au(d, M):
     return distance_in_meters(d, M) / 1.496e11
 
 
+@_double_precision
 def time_in_seconds(t, M):
     """Converts time in geometrized units to seconds
 
@@ -128,6 +136,7 @@ def time_in_seconds(t, M):
     return t * G / c**3 * mass_in_kg(M)
 
 
+@_double_precision
 def time2_in_seconds2(t, M):
     """Converts time^2 in geometrized units to seconds^2
 
@@ -141,6 +150,7 @@ def time2_in_seconds2(t, M):
     return t * (G / c**3) ** 2 * mass_in_kg(M) ** 2
 
 
+@_double_precision
 def time_in_days(t, M):
     """Converts time in geometrized units to days
 
@@ -159,6 +169,7 @@ def time_in_days(t, M):
     return time_in_seconds(t, M) / 86400
 
 
+@_double_precision
 def energy_in_joules(E, M):
     """Converts energy in geometrized units to joules
 
@@ -177,6 +188,7 @@ def energy_in_joules(E, M):
     return E * c**2 * mass_in_kg(M)
 
 
+@_double_precision
 def energy_in_ergs(E, M):
     """Converts energy in geometrized units to ergs
 
@@ -195,6 +207,7 @@ def energy_in_ergs(E, M):
     return energy_in_joules(E, M) * 1e7
 
 
+@_double_precision
 def angular_momentum_in_mks(L, M):
     """Converts angular momentum in geometrized units to kg m^2 s^-1
 
@@ -213,6 +226,7 @@ def angular_momentum_in_mks(L, M):
     return L * G / c * mass_in_kg(M) ** 2
 
 
+@_double_precision
 def angular_momentum_in_cgs(L, M):
     """Converts angular momentum in geometrized units to g cm^2 s^-1
 
@@ -231,6 +245,7 @@ def angular_momentum_in_cgs(L, M):
     return angular_momentum_in_mks(L, M) * 1e7
 
 
+@_double_precision
 def carter_constant_in_mks(Q, M):
     """Converts Carter constant in geometrized units to kg^2 m^4 s^-2
 
@@ -244,6 +259,7 @@ def carter_constant_in_mks(Q, M):
     return Q * G**2 / c**2 * mass_in_kg(M) ** 4
 
 
+@_double_precision
 def carter_constant_in_cgs(Q, M):
     """Converts Carter constant in geometrized units to g^2 cm^4 s^-2
 
@@ -257,6 +273,7 @@ def carter_constant_in_cgs(Q, M):
     return carter_constant_in_mks(Q, M) * 1e14
 
 
+@_double_precision
 def frequency_in_Hz(f, M):
     """Converts frequency in geometrized units to hertz
 
@@ -270,6 +287,7 @@ def frequency_in_Hz(f, M):
     return f * c**3 / G / mass_in_kg(M)
 
 
+@_double_precision
 def frequency_in_mHz(f, M):
     """Converts frequency in geometrized units to millihertz
 
-- 
2.43.0


From f5bf351d5ed4984d2b838d51a2f153082384447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:12 +0000
Subject: [PATCH 38/40] fix: plots and animations failed or lost points for
 small integer and half precision ranges

---
 kerrgeopy/orbit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index a7f833b..4fe372d 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -436,6 +436,7 @@ class Orbit:
 
         return u_t, u_r, u_theta, u_phi
 
+    @_double_precision
     def plot(
         self,
         lambda0=0,
@@ -561,6 +562,7 @@ class Orbit:
 
         return fig, ax
 
+    @_double_precision
     def is_visible(self, points, elevation, azimuth):
         """Determines if a point is visible from a given viewing angle or obscured
         by the black hole. Viewing angles are defined as in
@@ -609,6 +611,7 @@ class Orbit:
             | (np.linalg.norm(projection, axis=1) > event_horizon)
         ) & (np.linalg.norm(points, axis=1) > event_horizon)
 
+    @_double_precision
     def animate(
         self,
         filename,
-- 
2.43.0


From 4a24593c46ca52bde47220cf408649fe1c3052c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:49 +0000
Subject: [PATCH 39/40] fix: initial data at the turning points of wide orbits
 were rejected or had undefined phases

---
 kerrgeopy/initial_conditions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 426bb98..72485bc 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -90,6 +90,8 @@ def is_stable(a, initial_position, initial_velocity, constants=None, tol=1e-4):
     if constants is None:
         constants = constants_from_initial_conditions(a, initial_position, initial_velocity)
     E, L, Q = constants
+    # the roots of a wide orbit move by many times r0**2 times the roundoff of the energy
+    tol = max(tol, 1000 * np.finfo(float).eps * r0**2)
 
     # radial polynomial
     R = Polynomial(
@@ -220,7 +222,8 @@ def stable_orbit_initial_phases(
 
         # Fujita and Hikida equation 13
         k_r = sqrt((r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4)))
-        y_r = sqrt((r1 - r3) * (r0 - r2) / ((r1 - r2) * (r0 - r3)))
+        # clipped because roundoff can put a point next to a turning point outside of it
+        y_r = sqrt(clip((r1 - r3) * (r0 - r2) / ((r1 - r2) * (r0 - r3)), 0, 1))
         # Fujita and Hikida equation 26
         lambda_r0 = (
             1
-- 
2.43.0


From eb630c218f65e8d82b4143e5cdfdb3d41617ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:43:00 +0000
Subject: [PATCH 40/40] fix: the polar part of t lost its digits for wide
 orbits and small spins

---
 kerrgeopy/stable.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 14b9c0c..e00c002 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -3,7 +3,7 @@ from .constants import *
 from .constants import _standardize_params, _polar_complement
 from .frequencies import _ellippi, _ellippiinc, _ellipeinc, _ellipj3, _ellipj3inc
 from .frequencies import *
-from scipy.special import ellipj
+from scipy.special import ellipj, elliprd
 from .orbit import Orbit
 from numpy import pi, arctan2, rint
 from ._precision import _double_precision
@@ -419,8 +419,6 @@ def polar_solutions(a, constants, polar_roots):
     z_comp = _polar_complement(a, E, L, Q)
     # simplified form of L**2*epsilon0*z_plus
     L2e0zp = Q + L**2 + a**2 * (1 - E**2) * (1 - z_minus)
-    # simplified form of a**2*sqrt(z_plus/epsilon0)/abs(L)
-    a2sqrt_zp_over_e0 = sqrt(L2e0zp) / (1 - E**2)
 
     # equation 13
     k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
@@ -436,14 +434,20 @@ def polar_solutions(a, constants, polar_roots):
     def t_theta(q_theta):
         u_theta = 2 / pi * ellipk(k_theta**2) * (q_theta + pi / 2)
         sn, cn, dn, psi_theta = ellipj(u_theta, k_theta**2)
-        # equation 39
+        # equation 39 with E(psi, m) = u - m*S(psi), where S is the integral of sn^2, because the two
+        # elliptic integrals of the second kind cancel when k_theta is small
+        num_half_periods = rint(psi_theta / pi)
+        S_complete = elliprd(0, 1 - k_theta**2, 1) / 3
+        S = (
+            2 * num_half_periods * S_complete
+            + sin(psi_theta - pi * num_half_periods) ** 3 * elliprd(cn**2, dn**2, 1) / 3
+        )
         return (
-            a2sqrt_zp_over_e0
+            a**2
+            * z_minus
             * E
-            * (
-                2 / pi * ellipe(k_theta**2) * (q_theta + pi / 2)
-                - _ellipeinc(psi_theta, k_theta**2)
-            )
+            / sqrt(L2e0zp)
+            * (S - 2 / pi * S_complete * (q_theta + pi / 2))
         )
 
     @_double_precision
-- 
2.43.0

