From 5f8bcd7fd31b98b406bd8ab201e0beabb11d64fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 01/26] fix: scale_constants must not convert M to kg

Orbit.constants_of_motion passes M = 1 (geometrized units) and converts the
result with the *_in_mks / *_in_cgs functions afterwards, so the extra
mass_in_kg made L too large by one solar mass in kg and Q by its square.
---
 kerrgeopy/constants.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 46d018c..2b9d7bd 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -742,5 +742,4 @@ def scale_constants(constants, M, mu):
     -------
     tuple(double, double, double)
     """
-    M = mass_in_kg(M)
     return constants[0] * mu, constants[1] * mu * M, constants[2] * mu**2 * M**2
-- 
2.43.0


From cc6554c2ac8f8ab8b70afc152f9d3802cef2ef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 02/26] fix: is_visible must test each point against the
 horizon

np.linalg.norm without axis is the Frobenius norm of the whole array, so points
inside the event horizon were reported visible whenever any other point was
outside it.
---
 kerrgeopy/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 52b68f6..1f7b46d 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -585,7 +585,7 @@ class Orbit:
         return (
             (normal_component >= 0)
             | (np.linalg.norm(projection, axis=1) > event_horizon)
-        ) & (np.linalg.norm(points) > event_horizon)
+        ) & (np.linalg.norm(points, axis=1) > event_horizon)
 
     def animate(
         self,
-- 
2.43.0


From 0d4817421f644976c709daabd21e37bab94b5154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 03/26] fix: pass polar roots to polar_solutions in
 trajectory_deltas

For a plunge with four real radial roots trajectory_deltas handed the radial
roots to polar_solutions and always raised 'too many values to unpack'.
---
 kerrgeopy/orbit.py  | 11 ++++++++++-
 kerrgeopy/plunge.py | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 1f7b46d..c260710 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -156,8 +156,17 @@ class Orbit:
 
                 constants = (self.E, self.L, self.Q)
                 r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
+                # polar polynomial written in terms of z = cos^2(theta)
+                Z = Polynomial(
+                    [
+                        self.Q,
+                        -(self.Q + self.a**2 * (1 - self.E**2) + self.L**2),
+                        self.a**2 * (1 - self.E**2),
+                    ]
+                )
+                polar_roots = Z.roots()
                 theta, t_theta, phi_theta = polar_solutions(
-                    self.a, constants, radial_roots
+                    self.a, constants, polar_roots
                 )
 
         return (
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 5c1b693..00181aa 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -109,7 +109,16 @@ class PlungingOrbit(Orbit):
         else:
             constants = (self.E, self.L, self.Q)
             r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
-            theta, t_theta, phi_theta = polar_solutions(self.a, constants, radial_roots)
+            # polar polynomial written in terms of z = cos^2(theta)
+            Z = Polynomial(
+                [
+                    self.Q,
+                    -(self.Q + self.a**2 * (1 - self.E**2) + self.L**2),
+                    self.a**2 * (1 - self.E**2),
+                ]
+            )
+            polar_roots = Z.roots()
+            theta, t_theta, phi_theta = polar_solutions(self.a, constants, polar_roots)
 
         return (
             lambda q_r: t_r(q_r + q_r0),
-- 
2.43.0


From 6f2af398d8b971804ae764d20bd1a653a2cb1811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 04/26] fix: initial phases of Schwarzschild and retrograde
 stable orbits

For a = 0 stable_orbit_initial_phases used k_theta = 1 and handed the radial
roots in increasing order to a function expecting decreasing order, giving NaN
phases for every inclined Schwarzschild orbit; the polar phase also mixed the
unsigned frequency with a factor 1/L, which has the wrong sign for L < 0.
---
 kerrgeopy/initial_conditions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 946ac94..16f1418 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -201,6 +201,7 @@ def stable_orbit_initial_phases(
         radial_roots = R.roots()
         # numpy returns roots in increasing order
         r4, r3, r2, r1 = radial_roots
+        radial_roots = r1, r2, r3, r4
     else:
         r1, r2, r3, r4 = radial_roots
 
@@ -241,16 +242,16 @@ def stable_orbit_initial_phases(
     else:
         # compute theta frequency
         if upsilon_theta is None:
-            upsilon_theta = _theta_frequency_from_constants(
-                a, constants, radial_roots, polar_roots
+            upsilon_theta = abs(
+                _theta_frequency_from_constants(a, constants, radial_roots, polar_roots)
             )
 
-        k_theta = sqrt(z_minus / z_plus)
+        k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
         y_theta = cos(theta0) / sqrt(z_minus)
         e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
 
         # Fujita and Hikida equation 37
-        lambda_theta0 = 1 / (L * sqrt(e0zp)) * ellipkinc(arcsin(y_theta), k_theta**2)
+        lambda_theta0 = 1 / (abs(L) * sqrt(e0zp)) * ellipkinc(arcsin(y_theta), k_theta**2)
 
         # Fujita and Hikida equation 36
         if dtheta0 < 0:
-- 
2.43.0


From b60631c17ba550d495902665a3fd9763ebf78687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 05/26] fix: recognise circular orbits from initial conditions
 and constants

numpy often returns the double radial root of a circular orbit as a complex
pair, so Orbit classified about half of all stable circular orbits as plunging
and apex_from_constants returned complex orbital parameters.
---
 kerrgeopy/constants.py          | 4 ++++
 kerrgeopy/initial_conditions.py | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 2b9d7bd..7858cd0 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -471,6 +471,10 @@ def apex_from_constants(a, E, L, Q):
         ]
     )
     radial_roots = R.roots()
+    # rounding can split the double root of a circular orbit into a complex pair
+    if np.any(abs(np.imag(radial_roots)) > 1e-4 * abs(np.real(radial_roots))):
+        raise ValueError("Not a stable orbit")
+    radial_roots = np.real(radial_roots)
     # numpy returns roots in increasing order
     r4, r3, r2, r1 = radial_roots
 
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 16f1418..5a8781a 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -111,7 +111,8 @@ def is_stable(a, initial_position, initial_velocity, constants=None, tol=1e-4):
         raise ValueError("Not a physical orbit")
 
     if len(complex_roots) == 2:
-        return False
+        # rounding can split the double root of a circular orbit into a complex pair
+        return bool(np.all(abs(complex_roots - r0) < tol * r0))
 
     r4, r3, r2, r1 = real_roots
     # r4 < r3 < [r2 < r_minus < r_plus < r1]
-- 
2.43.0


From e465829c409c9856aaf74a26ee4fe49bd397bd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 06/26] fix: initial phases of plunges starting at a turning
 point or in the equatorial plane

Rounding could push the arcsin arguments outside of [-1, 1] at turning points, and
equatorial plunges divided 0 by 0, so Orbit returned NaN trajectories.
---
 kerrgeopy/initial_conditions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 5a8781a..e1702cf 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -348,16 +348,17 @@ def plunging_orbit_initial_phases(
         B = sqrt((r1 - rho_r) ** 2 + rho_i**2)
         k_r = sqrt(((r2 - r1) ** 2 - (A - B) ** 2) / (4 * A * B))
         # equation 49
+        # arguments of arcsin are clipped because rounding can put them outside of [-1,1]
+        # when the orbit starts at a turning point
+        y_r = (B * (r2 - r0) - A * (r0 - r1)) / (B * (r2 - r0) + A * (r0 - r1))
         lambda_r0 = (
             -1
             / sqrt((1 - E**2) * A * B)
-            * ellipkinc(
-                pi / 2 - arcsin((B * (r2 - r0) - A * (r0 - r1)) / (B * (r2 - r0) + A * (r0 - r1))),
-                k_r**2,
-            )
+            * ellipkinc(pi / 2 - arcsin(np.clip(y_r, -1, 1)), k_r**2)
         )
-        # derived by inverting equation 29
-        lambda_theta0 = 1 / z2 * ellipkinc(arcsin(cos(theta0) / z1), k_theta**2)
+        # derived by inverting equation 29 (z1 = 0 for equatorial orbits)
+        y_theta = cos(theta0) / z1 if z1 > 0 else 0
+        lambda_theta0 = 1 / z2 * ellipkinc(arcsin(np.clip(y_theta, -1, 1)), k_theta**2)
 
         upsilon_r, upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
 
-- 
2.43.0


From e0c3345808eab868ae3fa3d1eba8f67604249b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 07/26] fix: stable_trajectory for negative spin

The constants of motion and frequencies are given with respect to the direction of
the spin, but the solutions were evaluated with the signed spin, so an Orbit with
a < 0 on a stable orbit did not follow a geodesic.
---
 kerrgeopy/stable.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 4aa7ce3..0c25109 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -501,7 +501,11 @@ def stable_trajectory(
         raise ValueError("M must be specified to convert to physical units")
 
     upsilon_r, upsilon_theta, upsilon_phi, gamma = mino_frequencies(a, p, e, x)
-    constants = constants_of_motion(a, p, e, x)
+    E, L, Q = constants_of_motion(a, p, e, x)
+    # constants and frequencies are given with respect to the direction of the spin
+    # so L and upsilon_phi change sign in coordinates where a is negative
+    upsilon_phi = copysign(1, a) * upsilon_phi
+    constants = E, copysign(1, a) * L, Q
     radial_roots = stable_radial_roots(a, p, e, x, constants)
     polar_roots = stable_polar_roots(a, p, e, x, constants)
 
-- 
2.43.0


From 3c42d09c522febe49d569ed9b935ba3b351f81ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 08/26] fix: use x^2 instead of 1 - z^2 in the constants of
 motion

1 - z^2 with z = sqrt(1 - x^2) underflows to zero for nearly polar orbits, so
energy, angular_momentum and carter_constant returned NaN for |x| < 1e-8.
---
 kerrgeopy/constants.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 7858cd0..d82f044 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -163,7 +163,7 @@ def _coefficients(r, a, x):
     delta = r**2 - 2 * r + a**2
     f = lambda r: r**4 + a**2 * (r * (r + 2) + z**2 * delta)
     g = lambda r: 2 * a * r
-    h = lambda r: r * (r - 2) + z**2 / (1 - z**2) * delta
+    h = lambda r: r * (r - 2) + z**2 / x**2 * delta
     d = lambda r: (r**2 + a**2 * z**2) * delta
 
     return f(r), g(r), h(r), d(r)
@@ -189,7 +189,7 @@ def _coefficients_derivative(r, a, x):
     z = sqrt(1 - x**2)
     f_prime = lambda r: 4 * r**3 + 2 * a**2 * ((1 + z**2) * r + (1 - z**2))
     g_prime = lambda r: 2 * a
-    h_prime = lambda r: 2 * (r - 1) / (1 - z**2)
+    h_prime = lambda r: 2 * (r - 1) / x**2
     d_prime = lambda r: 2 * (2 * r - 3) * r**2 + 2 * a**2 * ((1 + z**2) * r - z**2)
 
     return f_prime(r), g_prime(r), h_prime(r), d_prime(r)
@@ -411,7 +411,7 @@ def carter_constant(a, p, e, x, E=None, L=None):
     if L is None:
         L = angular_momentum(a, p, e, x, E)
     #  equation B.4
-    return z**2 * (a**2 * (1 - E**2) + L**2 / (1 - z**2))
+    return z**2 * (a**2 * (1 - E**2) + L**2 / x**2)
 
 
 def constants_of_motion(a, p, e, x):
-- 
2.43.0


From 3ca65682d67f921165e6dff5671ad92db0d70165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 09/26] fix: separatrix next to polar and equatorial orbits and
 for tiny spins

When the separatrix coincides with an end of the bracket (|x| < 1e-8, |x| close to 1,
a < 1e-6) rounding can give both ends the same sign and brentq raised an error.
---
 kerrgeopy/constants.py | 45 +++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index d82f044..5ce903c 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -593,6 +593,29 @@ def _S(p, a, e, x):
     # fmt: on
 
 
+def _bracketed_root(f, args, bracket):
+    """Finds the root of f(p, *args) in the given bracket. If rounding makes f have
+    the same sign at both ends, the root coincides with the end where f is smaller.
+
+    Parameters
+    ----------
+    f : function
+        function of p
+    args : tuple
+        additional arguments of f
+    bracket : list(double, double)
+        interval containing the root
+
+    Returns
+    -------
+    double
+    """
+    f0, f1 = f(bracket[0], *args), f(bracket[1], *args)
+    if f0 * f1 > 0:
+        return bracket[0] if abs(f0) < abs(f1) else bracket[1]
+    return root_scalar(f, args=args, bracket=bracket).root
+
+
 def separatrix(a, e, x):
     """Returns the value of p at the separatrix for the given orbital parameters 
     computed using the bracked root finding method described in 
@@ -621,33 +644,31 @@ def separatrix(a, e, x):
         return 6 + 2 * e
 
     polar_bracket = [1 + sqrt(3) + sqrt(3 + 2 * sqrt(3)), 8]
-    p_polar = root_scalar(_S_polar, args=(a, e), bracket=polar_bracket)
+    p_polar = _bracketed_root(_S_polar, (a, e), polar_bracket)
 
     if x == 0:
-        return p_polar.root
+        return p_polar
 
     equatorial_prograde_bracket = [1 + e, 6 + 2 * e]
-    p_equatorial_prograde = root_scalar(
-        _S_equatorial, args=(a, e), bracket=equatorial_prograde_bracket
+    p_equatorial_prograde = _bracketed_root(
+        _S_equatorial, (a, e), equatorial_prograde_bracket
     )
 
     if x == 1:
-        return p_equatorial_prograde.root
+        return p_equatorial_prograde
 
     if x == -1:
         equatorial_retrograde_bracket = [6 + 2 * e, 5 + e + 4 * sqrt(1 + e)]
-        p_equatorial_retrograde = root_scalar(
-            _S_equatorial, args=(a, e), bracket=equatorial_retrograde_bracket
+        p_equatorial_retrograde = _bracketed_root(
+            _S_equatorial, (a, e), equatorial_retrograde_bracket
         )
-        return p_equatorial_retrograde.root
+        return p_equatorial_retrograde
 
     if x > 0:
-        p = root_scalar(_S, args=(a, e, x), bracket=[p_equatorial_prograde.root, p_polar.root])
-        return p.root
+        return _bracketed_root(_S, (a, e, x), [p_equatorial_prograde, p_polar])
 
     if x < 0:
-        p = root_scalar(_S, args=(a, e, x), bracket=[p_polar.root, 12])
-        return p.root
+        return _bracketed_root(_S, (a, e, x), [p_polar, 12])
 
 
 def fast_separatrix(a, grid_spacing=0.01):
-- 
2.43.0


From 25bbaa40cdd4f7a8b0d80510c46996bb25660421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 10/26] fix: reject unbound and extreme orbits instead of
 returning nan

---
 kerrgeopy/orbit.py  | 6 ++++++
 kerrgeopy/plunge.py | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index c260710..d2146b3 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -67,6 +67,9 @@ class Orbit:
             mu,
         )
 
+        if not abs(a) < 1:
+            raise ValueError("Extreme Kerr not supported")
+
         # check if initial four-velocity is valid
         spacetime = KerrSpacetime(a)
         initial_norm = spacetime.norm(*initial_position, initial_velocity)
@@ -80,6 +83,9 @@ class Orbit:
         )
         self.E, self.L, self.Q = E, L, Q
 
+        if not E**2 < 1:
+            raise ValueError("Unbound orbits not supported")
+
         if is_stable(a, initial_position, initial_velocity):
             self.stable = True
             a, p, e, x = apex_from_constants(a, E, L, Q)
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 00181aa..2328de6 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -71,6 +71,10 @@ class PlungingOrbit(Orbit):
 
         if a == 0:
             raise ValueError("Schwarzschild plunges are not currently supported")
+        if not abs(a) < 1:
+            raise ValueError("Extreme Kerr not supported")
+        if not E**2 < 1:
+            raise ValueError("Unbound orbits not supported")
 
         self.stable = False
         self.upsilon_r, self.upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
-- 
2.43.0


From 1478f3319be1d7481412edf40fd0fa48e7d0f74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 11/26] fix: roots of the polar polynomial for small spins

---
 kerrgeopy/constants.py          | 35 ++++++++++++++++++++++++++++-----
 kerrgeopy/frequencies.py        | 18 ++---------------
 kerrgeopy/initial_conditions.py | 20 +++----------------
 kerrgeopy/orbit.py              | 10 +++-------
 kerrgeopy/plunge.py             | 26 +++---------------------
 5 files changed, 41 insertions(+), 68 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 5ce903c..9bac76f 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -142,6 +142,35 @@ def stable_polar_roots(a, p, e, x, constants=None):
     return z_minus, z_plus
 
 
+def polar_roots_from_constants(a, E, L, Q):
+    r"""Computes the roots of the polar polynomial written in terms of 
+    :math:`z = \cos^2(\theta)`. Roots are given in increasing order.
+
+    Parameters
+    ----------
+    a : double
+        dimensionless spin parameter
+    E : double
+        dimensionless energy
+    L : double
+        dimensionless angular momentum
+    Q : double
+        dimensionless Carter constant
+
+    Returns
+    -------
+    tuple(double, double)
+        tuple of roots :math:`(z_-, z_+)`
+    """
+    beta = a**2 * (1 - E**2)
+    # written without differences of almost equal numbers because z_+ is large for small spins
+    s = L**2 + Q + beta + sqrt((L**2 + Q - beta) ** 2 + 4 * beta * L**2)
+    z_minus = 2 * Q / s
+    z_plus = z_minus if a == 0 else s / (2 * beta)
+
+    return z_minus, z_plus
+
+
 def _coefficients(r, a, x):
     """Computes the coefficients f, g, h and d from equation B.5 in 
     `Schmidt <https://doi.org/10.48550/arXiv.gr-qc/0202090>`_
@@ -479,11 +508,7 @@ def apex_from_constants(a, E, L, Q):
     r4, r3, r2, r1 = radial_roots
 
     # polar polynomial written in terms of z = cos^2(theta)
-    Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-    polar_roots = Z.roots()
-    if a == 0:
-        polar_roots = [polar_roots[0], polar_roots[0]]
-    z_minus, z_plus = polar_roots
+    z_minus, z_plus = polar_roots_from_constants(a, E, L, Q)
 
     p = 2 * r1 * r2 / (r1 + r2)
     e = (r1 - r2) / (r1 + r2)
diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 9ecc96d..493f1c5 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -481,18 +481,7 @@ def plunging_mino_frequencies(a, E, L, Q):
         upsilon_r = pi * sqrt(A * B * (1 - E**2)) / (2 * ellipk(k_r**2))
 
         # equation 14
-        z1 = sqrt(
-            1
-            / 2
-            * (
-                1
-                + (L**2 + Q) / (a**2 * (1 - E**2))
-                - sqrt(
-                    (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2
-                    - 4 * Q / (a**2 * (1 - E**2))
-                )
-            )
-        )
+        z1 = sqrt(polar_roots_from_constants(a, E, L, Q)[0])
         z2 = sqrt(
             a**2
             * (1 - E**2)
@@ -512,10 +501,7 @@ def plunging_mino_frequencies(a, E, L, Q):
         upsilon_theta = pi / 2 * z2 / ellipk(k_theta**2)
     else:
         # polar polynomial written in terms of z = cos^2(theta)
-        Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-        polar_roots = Z.roots()
-        if a == 0:
-            polar_roots = [polar_roots[0], polar_roots[0]]
+        polar_roots = polar_roots_from_constants(a, E, L, Q)
         constants = (E, L, Q)
         upsilon_r, upsilon_theta, upsilon_phi, gamma = _mino_frequencies_from_constants(
             a, constants, radial_roots, polar_roots
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index e1702cf..0d3e504 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -4,7 +4,7 @@ from .frequencies import (
     _theta_frequency_from_constants,
     plunging_mino_frequencies,
 )
-from .constants import plunging_radial_roots
+from .constants import plunging_radial_roots, polar_roots_from_constants
 import numpy as np
 from numpy import sin, cos, sqrt, pi, arcsin, arccos
 from numpy.polynomial import Polynomial
@@ -182,10 +182,7 @@ def stable_orbit_initial_phases(
     E, L, Q = constants
 
     # polar polynomial written in terms of z = cos^2(theta)
-    Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-    polar_roots = Z.roots()
-    if a == 0:
-        polar_roots = [polar_roots[0], polar_roots[0]]
+    polar_roots = polar_roots_from_constants(a, E, L, Q)
     z_minus, z_plus = polar_roots
 
     # recompute radial roots if they are not passed in
@@ -314,18 +311,7 @@ def plunging_orbit_initial_phases(
     r1, r2, r3, r4 = radial_roots
 
     if np.iscomplex(r3):
-        z1 = sqrt(
-            1
-            / 2
-            * (
-                1
-                + (L**2 + Q) / (a**2 * (1 - E**2))
-                - sqrt(
-                    (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2
-                    - 4 * Q / (a**2 * (1 - E**2))
-                )
-            )
-        )
+        z1 = sqrt(polar_roots_from_constants(a, E, L, Q)[0])
         z2 = sqrt(
             a**2
             * (1 - E**2)
diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index d2146b3..14e2c1f 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -5,6 +5,7 @@ from .units import *
 from .constants import (
     scale_constants,
     apex_from_constants,
+    polar_roots_from_constants,
     stable_polar_roots,
     stable_radial_roots,
 )
@@ -163,14 +164,9 @@ class Orbit:
                 constants = (self.E, self.L, self.Q)
                 r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
                 # polar polynomial written in terms of z = cos^2(theta)
-                Z = Polynomial(
-                    [
-                        self.Q,
-                        -(self.Q + self.a**2 * (1 - self.E**2) + self.L**2),
-                        self.a**2 * (1 - self.E**2),
-                    ]
+                polar_roots = polar_roots_from_constants(
+                    self.a, self.E, self.L, self.Q
                 )
-                polar_roots = Z.roots()
                 theta, t_theta, phi_theta = polar_solutions(
                     self.a, constants, polar_roots
                 )
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 2328de6..dadae8f 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -114,14 +114,7 @@ class PlungingOrbit(Orbit):
             constants = (self.E, self.L, self.Q)
             r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
             # polar polynomial written in terms of z = cos^2(theta)
-            Z = Polynomial(
-                [
-                    self.Q,
-                    -(self.Q + self.a**2 * (1 - self.E**2) + self.L**2),
-                    self.a**2 * (1 - self.E**2),
-                ]
-            )
-            polar_roots = Z.roots()
+            polar_roots = polar_roots_from_constants(self.a, self.E, self.L, self.Q)
             theta, t_theta, phi_theta = polar_solutions(self.a, constants, polar_roots)
 
         return (
@@ -431,17 +424,7 @@ def plunging_polar_solutions(a, E, L, Q):
         tuple of polar solutions :math:`(\theta(q_\theta),
         t_\theta(q_\theta), \phi_\theta(q_\theta))`
     """
-    z1 = sqrt(
-        1
-        / 2
-        * (
-            1
-            + (L**2 + Q) / (a**2 * (1 - E**2))
-            - sqrt(
-                (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2 - 4 * Q / (a**2 * (1 - E**2))
-            )
-        )
-    )
+    z1 = sqrt(polar_roots_from_constants(a, E, L, Q)[0])
     z2 = sqrt(
         a**2
         * (1 - E**2)
@@ -666,10 +649,7 @@ def _real_plunge_trajectory(
     radial_roots = plunging_radial_roots(a, E, L, Q)
 
     # polar polynomial written in terms of z = cos^2(theta)
-    Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-    polar_roots = Z.roots()
-    if a == 0:
-        polar_roots = [polar_roots[0], polar_roots[0]]
+    polar_roots = polar_roots_from_constants(a, E, L, Q)
 
     upsilon_r, upsilon_theta, upsilon_phi, gamma = _mino_frequencies_from_constants(
         a, constants, radial_roots, polar_roots
-- 
2.43.0


From b943e94233ed5907daae575e19ba92d420621ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 12/26] fix: time of equatorial plunges with four real radial
 roots

A turning point at r = 0 gives e = 1, which was taken for a marginally
bound orbit, so the average rate of t was infinite and t was nan.
---
 kerrgeopy/frequencies.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 493f1c5..e69e17b 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -679,13 +679,12 @@ def _gamma_from_constants(
     r1, r2, r3, r4 = radial_roots
     z_minus, z_plus = polar_roots
 
-    e = (r1 - r2) / (r1 + r2)
+    E, L, Q = constants
+
     # marginally bound case
-    if e == 1:
+    if E == 1:
         return inf
 
-    E, L, Q = constants
-
     epsilon0 = a**2 * (1 - E**2) / L**2
     # simplified form of a**2*sqrt(z_plus/epsilon0)
     a2sqrt_zp_over_e0 = (
-- 
2.43.0


From fd722d4fcb68fa2475440ab08be4a78fff4325ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 13/26] fix: incomplete elliptic integrals next to odd
 multiples of pi/2

arcsin(sin(phi)) resolves an angle next to pi/2 only to 1e-8, which made t and
phi of orbits near the separatrix jump around their turning points.
---
 kerrgeopy/frequencies.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index e69e17b..ef9b098 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -4,7 +4,7 @@ Frequencies are computed using the method derived in `Fujita and Hikida <https:/
 from .constants import _standardize_params
 from .constants import *
 from scipy.special import ellipk, ellipe, elliprj, elliprf, elliprd
-from numpy import sin, cos, sqrt, pi, arcsin, floor, where
+from numpy import sin, cos, sqrt, pi, floor, where
 
 
 def _ellipeinc(phi, m):
@@ -24,7 +24,7 @@ def _ellipeinc(phi, m):
 
     num_cycles = floor(phi / (pi / 2))
     # map phi to [0,pi/2]
-    phi = abs(arcsin(sin(phi)))
+    phi = abs(phi - pi * np.round(phi / pi))
 
     # formula from https://en.wikipedia.org/wiki/Carlson_symmetric_form
     integral = sin(phi) * elliprf(cos(phi) ** 2, 1 - m * sin(phi) ** 2, 1) - 1 / 3 * m * sin(
@@ -78,7 +78,7 @@ def _ellippiinc(phi, n, m):
     # count the number of half periods
     num_cycles = floor(phi / (pi / 2))
     # map phi to [0,pi/2]
-    phi = abs(arcsin(sin(phi)))
+    phi = abs(phi - pi * np.round(phi / pi))
     # formula from https://en.wikipedia.org/wiki/Carlson_symmetric_form
     integral = sin(phi) * elliprf(cos(phi) ** 2, 1 - m * sin(phi) ** 2, 1) + 1 / 3 * n * sin(
         phi
-- 
2.43.0


From 8cd746154718260ba398560f6ffc6aa1141147b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:47 +0000
Subject: [PATCH 14/26] fix: reject constants without stable motion in
 apex_from_constants

---
 kerrgeopy/constants.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 9bac76f..7ac5772 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -489,6 +489,10 @@ def apex_from_constants(a, E, L, Q):
     tuple(double,double,double,double)
         tuple of orbital parameters :math:`(a,p,e,x)`
     """
+    # no stable bound orbit has these energies or a negative Carter constant (beyond rounding)
+    if not (0 < E < 1 and Q > -1e-10):
+        raise ValueError("Not a stable orbit")
+
     # Radial polynomial
     R = Polynomial(
         [
@@ -506,9 +510,12 @@ def apex_from_constants(a, E, L, Q):
     radial_roots = np.real(radial_roots)
     # numpy returns roots in increasing order
     r4, r3, r2, r1 = radial_roots
+    # the motion between r2 and r1 is a plunge unless r2 lies outside of the event horizon
+    if not r2 > 1 + sqrt(1 - a**2):
+        raise ValueError("Not a stable orbit")
 
     # polar polynomial written in terms of z = cos^2(theta)
-    z_minus, z_plus = polar_roots_from_constants(a, E, L, Q)
+    z_minus, z_plus = polar_roots_from_constants(a, E, L, max(Q, 0))
 
     p = 2 * r1 * r2 / (r1 + r2)
     e = (r1 - r2) / (r1 + r2)
-- 
2.43.0


From bd76c279c7ce7997db02d1589036bfd1c9b8ba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:11 +0000
Subject: [PATCH 15/26] fix: initial phases next to turning points and of
 circular orbits

Phases within 1e-4 of a turning point were replaced by those of the turning
point, so that the orbit started with the wrong velocity. Circular orbits at
large radii raised a TypeError when rounding made the double root complex,
and turning points at large radii were refused.
---
 kerrgeopy/initial_conditions.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 0d3e504..0e3293f 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -73,8 +73,8 @@ def is_stable(a, initial_position, initial_velocity, constants=None, tol=1e-4):
         tuple of constants of motion :math:`(\mathcal{E},\mathcal{L},\mathcal{Q})` 
         can be passed in to avoid recomputing them
     tol : double, optional
-        numerical tolerance used when comparing :math:`r_0` to radial
-        roots, defaults to 1e-4
+        numerical tolerance, relative for :math:`r_0>1`, used when comparing
+        :math:`r_0` to radial roots, defaults to 1e-4
 
     Returns
     -------
@@ -83,6 +83,8 @@ def is_stable(a, initial_position, initial_velocity, constants=None, tol=1e-4):
     """
 
     t0, r0, theta0, phi0 = initial_position
+    # the error of the roots grows with their size
+    tol = tol * max(1, r0)
     # recompute constants if they are not passed in
     if constants is None:
         constants = constants_from_initial_conditions(a, initial_position, initial_velocity)
@@ -112,7 +114,7 @@ def is_stable(a, initial_position, initial_velocity, constants=None, tol=1e-4):
 
     if len(complex_roots) == 2:
         # rounding can split the double root of a circular orbit into a complex pair
-        return bool(np.all(abs(complex_roots - r0) < tol * r0))
+        return bool(np.all(abs(complex_roots - r0) < tol))
 
     r4, r3, r2, r1 = real_roots
     # r4 < r3 < [r2 < r_minus < r_plus < r1]
@@ -136,7 +138,7 @@ def stable_orbit_initial_phases(
     radial_roots=None,
     upsilon_r=None,
     upsilon_theta=None,
-    tol=1e-4,
+    tol=1e-10,
 ):
     r"""Computes the initial phases :math:`(q_{t_0},q_{r_0},q_{\theta_0},q_{\phi_0})` 
     of a stable bound orbit with the given initial conditions. Computes phases 
@@ -165,7 +167,7 @@ def stable_orbit_initial_phases(
         avoid recomputing it
     tol : double, optional
         numerical tolerance used when checking for turning points,
-        defaults to 1e-4
+        defaults to 1e-10
 
     Returns
     -------
@@ -196,7 +198,8 @@ def stable_orbit_initial_phases(
                 E**2 - 1,
             ]
         )
-        radial_roots = R.roots()
+        # rounding can split the double root of a circular orbit into a complex pair
+        radial_roots = np.real(R.roots())
         # numpy returns roots in increasing order
         r4, r3, r2, r1 = radial_roots
         radial_roots = r1, r2, r3, r4
@@ -204,7 +207,7 @@ def stable_orbit_initial_phases(
         r1, r2, r3, r4 = radial_roots
 
     # check for turning points in r
-    if abs(r0 - r2) < tol:
+    if abs(r0 - r2) < tol or r1 == r2:
         q_r0 = 0
     elif abs(r0 - r1) < tol:
         q_r0 = pi
@@ -215,7 +218,8 @@ def stable_orbit_initial_phases(
 
         # Fujita and Hikida equation 13
         k_r = sqrt((r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4)))
-        y_r = sqrt((r1 - r3) * (r0 - r2) / ((r1 - r2) * (r0 - r3)))
+        # rounding can put the argument of arcsin outside of [0,1] close to a turning point
+        y_r = sqrt(np.clip((r1 - r3) * (r0 - r2) / ((r1 - r2) * (r0 - r3)), 0, 1))
         # Fujita and Hikida equation 26
         lambda_r0 = (
             1
@@ -245,7 +249,7 @@ def stable_orbit_initial_phases(
             )
 
         k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
-        y_theta = cos(theta0) / sqrt(z_minus)
+        y_theta = np.clip(cos(theta0) / sqrt(z_minus), -1, 1)
         e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
 
         # Fujita and Hikida equation 37
@@ -266,7 +270,7 @@ def stable_orbit_initial_phases(
 
 
 def plunging_orbit_initial_phases(
-    a, initial_position, initial_velocity, constants=None, radial_roots=None, tol=1e-4
+    a, initial_position, initial_velocity, constants=None, radial_roots=None, tol=1e-10
 ):
     r"""Computes the initial phases :math:`(q_{t_0},q_{r_0},q_{\theta_0},q_{\phi_0})` 
     of a plunging orbit with the given initial conditions. Computes phases with 
@@ -289,7 +293,7 @@ def plunging_orbit_initial_phases(
         recomputing them
     tol : double, optional
         numerical tolerance used when checking for turning points,
-        defaults to 1e-4
+        defaults to 1e-10
 
     Returns
     -------
-- 
2.43.0


From e738861470278d363bd0d64064f1104c68dc24a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:53 +0000
Subject: [PATCH 16/26] fix: reject initial velocities whose norm is undefined

---
 kerrgeopy/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 14e2c1f..6228b4d 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -76,7 +76,7 @@ class Orbit:
         initial_norm = spacetime.norm(*initial_position, initial_velocity)
         if initial_norm >= 0:
             raise ValueError("Initial velocity is not timelike")
-        if abs(initial_norm + 1) > 1e-6:
+        if not abs(initial_norm + 1) <= 1e-6:
             raise ValueError("Initial velocity is not normalized")
 
         E, L, Q = constants_from_initial_conditions(
-- 
2.43.0


From 15aff6c29e6bf5e67741fe72ac30dfa3592a3f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 17/26] fix: radial roots of marginally bound orbits raised
 ZeroDivisionError

---
 kerrgeopy/constants.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 7ac5772..4f6c62e 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -34,6 +34,8 @@ def stable_radial_roots(a, p, e, x, constants=None):
     """
     if constants is None:
         constants = constants_of_motion(a, p, e, x)
+    if e == 1:
+        raise ValueError("Marginally bound orbits not supported")
     E, L, Q = constants
 
     r1 = p / (1 - e)
-- 
2.43.0


From cf1c74f37cb9b4a24f480fbf03404cfb162b379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:18 +0000
Subject: [PATCH 18/26] fix: is_visible takes a list of points as documented

---
 kerrgeopy/orbit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 6228b4d..c77bf3f 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -586,6 +586,7 @@ class Orbit:
             sin(elevation_rad),
         ]
 
+        points = np.asarray(points)
         normal_component = points.dot(view_plane_normal)
         # compute the projection of each trajectory point onto the viewing plane
         projection = points - np.transpose(
-- 
2.43.0


From c3327b160bc657920d9bf33c3b2ccef3777d44c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:18 +0000
Subject: [PATCH 19/26] fix: animate accepts tail lengths that are not whole
 numbers

---
 kerrgeopy/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index c77bf3f..9c93fd2 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -806,7 +806,7 @@ class Orbit:
                 pbar.update(1)
 
                 j = speed_multiplier * i
-                j0 = max(0, j - tail_length * point_density)
+                j0 = max(0, j - int(tail_length * point_density))
                 current_time = time[j]
 
                 # update camera angles
-- 
2.43.0


From 83291c3e7461858392c9eb61ab5a8ca79d619747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:18 +0000
Subject: [PATCH 20/26] fix: energy of nearly circular orbits

The coefficients of equation B.5 at the two turning points are almost the same
for small eccentricities, so the energy lost digits like 3e-14 / e (1e-8 at
e = 1e-6).  Use their difference quotient, written without the difference,
instead of their values at the outer turning point.
---
 kerrgeopy/constants.py | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 4f6c62e..e88b3b9 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -226,6 +226,38 @@ def _coefficients_derivative(r, a, x):
     return f_prime(r), g_prime(r), h_prime(r), d_prime(r)
 
 
+def _coefficients_difference(r1, r2, a, x):
+    """Computes the difference quotients (f(r1) - f(r2)) / (r1 - r2) of the coefficients from
+    equation B.5 in `Schmidt <https://doi.org/10.48550/arXiv.gr-qc/0202090>`_ without
+    subtracting almost equal numbers
+
+    Parameters
+    ----------
+    r1 : double
+        dimensionless distance from the black hole
+    r2 : double
+        dimensionless distance from the black hole
+    a : double
+        dimensionless spin of the black hole
+    x : double
+        cosine of the orbital inclination
+
+    Returns
+    -------
+    tuple(double, double, double, double)
+    """
+    z = sqrt(1 - x**2)
+    s1 = r1 + r2
+    s2 = r1**2 + r1 * r2 + r2**2
+    s3 = (r1 + r2) * (r1**2 + r2**2)
+    f = s3 + a**2 * ((1 + z**2) * s1 + 2 * (1 - z**2))
+    g = 2 * a
+    h = (s1 - 2) / x**2
+    d = s3 - 2 * s2 + a**2 * ((1 + z**2) * s1 - 2 * z**2)
+
+    return f, g, h, d
+
+
 def _standardize_params(a, x):
     """Changes signs of a and x so that a is positive 
     and x encodes the direction of the orbit.
@@ -305,8 +337,9 @@ def energy(a, p, e, x):
     else:
         r1 = p / (1 - e)
         r2 = p / (1 + e)
-        f1, g1, h1, d1 = _coefficients(r1, a, x)
-        f2, g2, h2, d2 = _coefficients(r2, a, x)
+        f1, g1, h1, d1 = _coefficients(r2, a, x)
+        # the coefficients at r1 are almost the same when r1 is close to r2
+        f2, g2, h2, d2 = _coefficients_difference(r1, r2, a, x)
 
     # equation B.19 - B.21
     kappa = d1 * h2 - h1 * d2
-- 
2.43.0


From 1c5e0217f48e82c4dea9603e1a2a5b3b210c7398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:19 +0000
Subject: [PATCH 21/26] fix: energy of nearly unbound orbits is not a number

The discriminant in equation B.22 was obtained as a difference of almost equal
numbers, which came out negative for about half of the orbits with
e > 1 - 1e-7.  Use an identity between the determinants that avoids it.
---
 kerrgeopy/constants.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index e88b3b9..1024f5c 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -348,14 +348,16 @@ def energy(a, p, e, x):
     epsilon = d1 * g2 - g1 * d2
     eta = f1 * g2 - g1 * f2
 
+    # sigma * epsilon^2 + rho * epsilon * kappa - eta * kappa^2 = sigma * (epsilon^2 + kappa * zeta)
+    # where the left hand side is a difference of almost equal numbers when e is close to 1
+    zeta = d1 * f2 - f1 * d2
+
     # equation B.22
     return sqrt(
         (
             kappa * rho
             + 2 * epsilon * sigma
-            - sign(x)
-            * 2
-            * sqrt(sigma * (sigma * epsilon**2 + rho * epsilon * kappa - eta * kappa**2))
+            - sign(x) * 2 * abs(sigma) * sqrt(epsilon**2 + kappa * zeta)
         )
         / (rho**2 + 4 * eta * sigma)
     )
-- 
2.43.0


From 79d89d65d590bca9e5c46dbcbe4e722763aed997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:19 +0000
Subject: [PATCH 22/26] fix: energy of prograde orbits with the turning points
 of a retrograde photon orbit

Numerator and denominator of equation B.22 both vanish there, so the energy of
orbits near it was wrong by up to 20 percent (a = 0.9, p = 3.910267939103037,
e = 0, x = 1).
---
 kerrgeopy/constants.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 1024f5c..c4b8dcd 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -353,14 +353,13 @@ def energy(a, p, e, x):
     zeta = d1 * f2 - f1 * d2
 
     # equation B.22
-    return sqrt(
-        (
-            kappa * rho
-            + 2 * epsilon * sigma
-            - sign(x) * 2 * abs(sigma) * sqrt(epsilon**2 + kappa * zeta)
-        )
-        / (rho**2 + 4 * eta * sigma)
-    )
+    b = kappa * rho + 2 * epsilon * sigma
+    root = 2 * abs(sigma) * sqrt(epsilon**2 + kappa * zeta)
+    # both sides of the fraction below vanish for prograde orbits between the turning points of a
+    # retrograde photon orbit
+    if x > 0 and b > 0:
+        return abs(kappa) / sqrt(b + root)
+    return sqrt((b - sign(x) * root) / (rho**2 + 4 * eta * sigma))
 
 
 def angular_momentum(a, p, e, x, E=None):
-- 
2.43.0


From 6fac5fa6a913c1cec70e563bd8dbd199ee40e8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:19 +0000
Subject: [PATCH 23/26] fix: angular momentum of nearly unbound orbits

The angular momentum was determined at the outer turning point, losing digits
like 1 / (1 - e)^2 (a relative error of 1e-4 at e = 0.99999).  Use the inner
turning point as for e = 1.
---
 kerrgeopy/constants.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index c4b8dcd..539a379 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -401,19 +401,11 @@ def angular_momentum(a, p, e, x, E=None):
     if x == 0:
         return 0
 
-    # marginally bound case
-    if e == 1:
-        r2 = p / (1 + e)
-        f2, g2, h2, d2 = _coefficients(r2, a, x)
-        # obtained by solving equation B.17 for L
-        return (-E * g2 + sign(x) * sqrt(-d2 * h2 + E**2 * (g2**2 + f2 * h2))) / h2
-
-    # generic case
-    else:
-        r1 = p / (1 - e)
-        f1, g1, h1, d1 = _coefficients(r1, a, x)
-        # obtained by solving equation B.17 for L
-        return (-E * g1 + sign(x) * sqrt(-d1 * h1 + E**2 * (g1**2 + f1 * h1))) / h1
+    # the outer turning point can be too far away to determine L to any accuracy
+    r2 = p / (1 + e)
+    f2, g2, h2, d2 = _coefficients(r2, a, x)
+    # obtained by solving equation B.17 for L
+    return (-E * g2 + sign(x) * sqrt(-d2 * h2 + E**2 * (g2**2 + f2 * h2))) / h2
 
 
 def carter_constant(a, p, e, x, E=None, L=None):
-- 
2.43.0


From 3910caf7f27ef61d3879fbbbe7a87ac304642bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:19 +0000
Subject: [PATCH 24/26] fix: angular momentum of prograde orbits that reach the
 ergosphere

The quadratic equation for L is linear there, and the result not a number
(a = 0.99, p = 4, e = 1, x = 1) or short of digits nearby.
---
 kerrgeopy/constants.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 539a379..0377c27 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -405,7 +405,11 @@ def angular_momentum(a, p, e, x, E=None):
     r2 = p / (1 + e)
     f2, g2, h2, d2 = _coefficients(r2, a, x)
     # obtained by solving equation B.17 for L
-    return (-E * g2 + sign(x) * sqrt(-d2 * h2 + E**2 * (g2**2 + f2 * h2))) / h2
+    root = sqrt(-d2 * h2 + E**2 * (g2**2 + f2 * h2))
+    # h2 vanishes when a prograde orbit reaches into the ergosphere
+    if x > 0:
+        return (E**2 * f2 - d2) / (E * g2 + root)
+    return (-E * g2 - root) / h2
 
 
 def carter_constant(a, p, e, x, E=None, L=None):
-- 
2.43.0


From d62b11c9396fc9bfee34ec446de6c914b7c033f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:19 +0000
Subject: [PATCH 25/26] fix: inner radial roots of nearly unbound orbits

r3 and r4 were obtained from the sum of all roots, losing digits like
r1^2, so that the frequencies and trajectories of orbits with e > 0.9999 were
wrong or not a number.
---
 kerrgeopy/constants.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 0377c27..b44f8cc 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -41,8 +41,12 @@ def stable_radial_roots(a, p, e, x, constants=None):
     r1 = p / (1 - e)
     r2 = p / (1 + e)
 
-    A_plus_B = 2 / (1 - E**2) - r1 - r2
-    AB = a**2 * Q / (r1 * r2 * (1 - E**2))
+    # the sum of all of the roots is 2 / (1 - E^2), which says nothing about the small ones when r1 is
+    # large, so r3 + r4 is obtained from the sum of the products of two of them instead
+    b = (L**2 + Q) / 2
+    c = a**2 * Q / (2 * r1 * r2)
+    A_plus_B = (a**2 - r1 * r2 + (r1 + r2) * (b - c)) / (r1 + r2 + c - b)
+    AB = c * (r1 + r2 + A_plus_B)
 
     r3 = (A_plus_B + sqrt(A_plus_B**2 - 4 * AB)) / 2
     r4 = AB / r3
-- 
2.43.0


From 7ad1b16c7feb6d50f60513ecb71e8b15f6294458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:31 +0000
Subject: [PATCH 26/26] fix: plunges around slowly spinning black holes are not
 numbers

The inner horizon and the innermost radial root shrink as a^2, and were lost to rounding for |a| below about 1e-5.
---
 kerrgeopy/constants.py          | 10 ++++++++--
 kerrgeopy/frequencies.py        |  8 ++++----
 kerrgeopy/initial_conditions.py |  5 +++--
 kerrgeopy/plunge.py             |  4 ++--
 kerrgeopy/stable.py             |  2 +-
 5 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index b44f8cc..758668a 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -91,13 +91,19 @@ def plunging_radial_roots(a, E, L, Q):
     real_roots = np.sort(np.real(roots[np.isreal(roots)]))
     complex_roots = roots[np.iscomplex(roots)]
 
-    r_minus = 1 - sqrt(1 - a**2)
+    # the smallest root vanishes with a and is lost to rounding above, so use the product of the roots
+    if len(roots) == 4 and len(real_roots) > 0:
+        i = np.argmin(abs(real_roots))
+        others = np.prod(np.delete(real_roots, i)) * np.real(np.prod(complex_roots))
+        if others != 0:
+            real_roots[i] = a**2 * Q / ((1 - E**2) * others)
 
     # if there are 4 real roots, by convention r4 < r3 < r2 < r1 
     # (consistent with stable orbits)
     if len(real_roots) == 4:
         # if there are three roots outside the event horizon swap r1/r3 and r2/r4
-        if real_roots[1] > r_minus:
+        # (there are no roots between the horizons 1 - sqrt(1 - a^2) and 1 + sqrt(1 - a^2))
+        if real_roots[1] > 1:
             r1 = real_roots[1]
             r2 = real_roots[0]
             r3 = real_roots[3]
diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index ef9b098..c5ba805 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -255,7 +255,7 @@ def phi_frequency(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None
     e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
 
     r_plus = 1 + sqrt(1 - a**2)
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
     h_minus = (r1 - r2) * (r3 - r_minus) / ((r1 - r3) * (r2 - r_minus))
@@ -344,7 +344,7 @@ def gamma(a, p, e, x, constants=None, upsilon_r=None, upsilon_theta=None):
         upsilon_theta = theta_frequency(a, p, e, x, constants)
 
     r_plus = 1 + sqrt(1 - a**2)
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     h_r = (r1 - r2) / (r1 - r3)
     h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
@@ -624,7 +624,7 @@ def _phi_frequency_from_constants(
     e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
 
     r_plus = 1 + sqrt(1 - a**2)
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
     h_minus = (r1 - r2) * (r3 - r_minus) / ((r1 - r3) * (r2 - r_minus))
@@ -700,7 +700,7 @@ def _gamma_from_constants(
         upsilon_theta = _theta_frequency_from_constants(a, constants, radial_roots, polar_roots)
 
     r_plus = 1 + sqrt(1 - a**2)
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     h_r = (r1 - r2) / (r1 - r3)
     h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 0e3293f..01cfaab 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -106,8 +106,9 @@ def is_stable(a, initial_position, initial_velocity, constants=None, tol=1e-4):
     real_roots = np.sort(np.real(radial_roots[np.isreal(radial_roots)]))
     complex_roots = radial_roots[np.iscomplex(radial_roots)]
 
-    # event horizon radius
-    r_minus = 1 - sqrt(1 - a**2)
+    # there are no roots between the horizons, so 1 stands in for the inner one, which is
+    # smaller than the rounding errors of the roots if the black hole spins slowly
+    r_minus = 1
 
     if len(complex_roots) == 4:
         raise ValueError("Not a physical orbit")
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index dadae8f..20b4815 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -182,7 +182,7 @@ def plunging_radial_integrals(a, E, L, Q):
 
     # inner and outer horizons
     r_plus = 1 + sqrt(1 - a**2)
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     # equation 42
     A = sqrt((r2 - rho_r) ** 2 + rho_i**2)
@@ -352,7 +352,7 @@ def plunging_radial_solutions_complex(a, E, L, Q):
 
     # inner and outer horizons
     r_plus = 1 + sqrt(1 - a**2)
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     # equation 42
     A = sqrt((r2 - rho_r) ** 2 + rho_i**2)
diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 0c25109..eca1a9d 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -296,7 +296,7 @@ def radial_solutions(a, constants, radial_roots):
     r1, r2, r3, r4 = radial_roots
 
     r_plus = 1 + sqrt(1 - a**2)
-    r_minus = 1 - sqrt(1 - a**2)
+    r_minus = a**2 / (1 + sqrt(1 - a**2))
 
     h_r = (r1 - r2) / (r1 - r3)
     h_plus = (r1 - r2) * (r3 - r_plus) / ((r1 - r3) * (r2 - r_plus))
-- 
2.43.0

