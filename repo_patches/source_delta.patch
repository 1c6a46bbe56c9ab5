From f885396f5ce7b1121f94dec6c5e1e0891f190c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 01/26] fix: compute collapse height with the current
 inclination

set_tc uses the slope-normal load and must run after set_phi; it used the
inclination of the previous call (or 0).
---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index b83f9dc..112ebda 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -776,8 +776,8 @@ class SlabContactMixin:
         """Set class attributes for touchdown consideration"""
         self.set_columnlength(L)
         self.set_cracklength(a)
-        self.set_tc(cf)
         self.set_phi(phi)
+        self.set_tc(cf)
         self.set_stiffness_ratio(ratio)
 
     def calc_touchdown_mode(self):
-- 
2.43.0


From fbbed6c6c2f9e6dee84a34b6cb4fa813ff362a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 02/26] fix: account for coupling of surface load in free
 segments

The particular solution of unsupported segments missed the B11/A11*pt
term and violated moment equilibrium for inclined, layered slabs with
surface load.
---
 weac/eigensystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/eigensystem.py b/weac/eigensystem.py
index e94a682..f50653b 100644
--- a/weac/eigensystem.py
+++ b/weac/eigensystem.py
@@ -579,7 +579,7 @@ class Eigensystem:
                 [-A11*(qn + pn)*x**4/(24*K0)],
                 [-A11*(qn + pn)*x**3/(6*K0)],
                 [A11*(qn + pn)*x**3/(6*K0)
-                 + ((zs - B11/A11)*qt - h*pt/2 - (qn + pn)*x)/kA55],
+                 + ((zs - B11/A11)*qt - (h/2 + B11/A11)*pt - (qn + pn)*x)/kA55],
                 [(qn + pn)*(A11*x**2/(2*K0) - 1/kA55)]])
 
         return zp
-- 
2.43.0


From 0fb64d7a75cbad1bcd081d0d76b80e67607b93f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 03/26] fix: include surface load in slab shear and normal
 stresses

Txz and Szz started from a traction-free top surface although a surface
load acts there, so they did not match the weak-layer stresses at the
bottom.
---
 weac/mixins.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/weac/mixins.py b/weac/mixins.py
index 112ebda..418f2af 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1589,6 +1589,8 @@ class AnalysisMixin:
         # to obtain shear stress Txz in MPa
         Txz = cumulative_trapezoid(dsxx_dx, zi, axis=0, initial=0)
         Txz += cumulative_trapezoid(qt, zi, initial=0)[:, None]
+        # Add shear traction of surface load at the top
+        Txz += self.get_surface_load(phi)[1]
 
         # Return shear stress Txz in specified unit
         return convert[unit] * Txz
@@ -1647,6 +1649,10 @@ class AnalysisMixin:
         Szz = cumulative_trapezoid(integrand, zi, axis=0, initial=0)
         Szz += cumulative_trapezoid(-qn, zi, initial=0)[:, None]
 
+        # Add the tractions of the surface load at the top
+        pn, _ = self.get_surface_load(phi)
+        Szz -= pn
+
         # Return shear stress txz in specified unit
         return convert[unit] * Szz
 
-- 
2.43.0


From 730ce8229dbe089febc20c1b89535307ae047626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 04/26] fix: use consistent signs for weak-layer shear strain
 and stress

tau = kt*t*gamma now holds. The opposite sign made mode II incremental
energy release rates negative and reduced the total.
---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 418f2af..56114f8 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -267,7 +267,7 @@ class FieldQuantitiesMixin:
         float
             Weak-layer shear strain gamma.
         """
-        return self.dw_dx(Z) / 2 - self.u(Z, z0=self.h / 2) / self.t
+        return self.u(Z, z0=self.h / 2) / self.t - self.dw_dx(Z) / 2
 
     def Gi(self, Ztip, unit="kJ/m^2"):
         """
-- 
2.43.0


From 2b05c3b804a07374e3e2ae8fa891963d6f969667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 05/26] fix: horizontal centroid of the wedge at vertical PST
 faces

The mean offset of the triangular wedge is half of tan(phi), not the
tangent of half the angle.
---
 weac/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/tools.py b/weac/tools.py
index 1092959..7ef33f4 100644
--- a/weac/tools.py
+++ b/weac/tools.py
@@ -158,7 +158,7 @@ def calc_vertical_bc_center_of_gravity(slab, phi):
         # Center of gravity in vertical direction
         zs = sum(zsi * rho * Ai) / sum(rho * Ai)
         # Center of gravity in horizontal direction
-        xs = (H / 2 - zs) * np.tan(phi / 2)
+        xs = (H / 2 - zs) * np.tan(phi) / 2
         # Weight of added or cut off slab segments (t)
         w = sum(Ai * rho)
 
-- 
2.43.0


From 27bba69abdcef4a772fd4721b6dbbec818e453b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 06/26] fix: normalize weak-layer stresses in MPa with strength
 in MPa

---
 weac/mixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 56114f8..fc2231a 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1769,7 +1769,9 @@ class AnalysisMixin:
 
         # Normalize compressive stresses to compressive strength
         if normalize and val == "min":
-            return ps / sc
+            # Convert strength from kPa to stress unit
+            convert = {"kPa": 1, "MPa": 1e-3}
+            return ps / (convert[unit] * sc)
 
         # Return absolute principal stresses
         return ps
-- 
2.43.0


From 63dc2ba86d5e72157f04c421cf75acf9eaeae1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 07/26] fix: make Inverse usable by including the slab contact
 methods

calc_segments relies on SlabContactMixin, so every segment computation of
an Inverse model raised an AttributeError.
---
 weac/inverse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weac/inverse.py b/weac/inverse.py
index 3542c3c..40ccd5f 100644
--- a/weac/inverse.py
+++ b/weac/inverse.py
@@ -3,14 +3,15 @@
 
 # Project imports
 from weac.mixins import FieldQuantitiesMixin
+from weac.mixins import SlabContactMixin
 from weac.mixins import SolutionMixin
 from weac.mixins import AnalysisMixin
 from weac.mixins import OutputMixin
 from weac.eigensystem import Eigensystem
 
 
-class Inverse(FieldQuantitiesMixin, SolutionMixin, AnalysisMixin,
-              OutputMixin, Eigensystem):
+class Inverse(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
+              AnalysisMixin, OutputMixin, Eigensystem):
     """
     Fit the elastic properties of the layers of a snowpack.
 
-- 
2.43.0


From ba586ce9684361da0d8dccb108750eb834edb7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 08/26] fix: accept layer arrays

The truth value of a layer array is ambiguous and raised a ValueError.
---
 weac/layered.py | 2 +-
 weac/tools.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/weac/layered.py b/weac/layered.py
index 9f4076f..2fb4fdd 100755
--- a/weac/layered.py
+++ b/weac/layered.py
@@ -44,6 +44,6 @@ class Layered(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
         super().__init__(system=system, touchdown=touchdown)
 
         # Set material properties and set up model
-        self.set_beam_properties(layers if layers else [[240, 200], ])
+        self.set_beam_properties([[240, 200], ] if layers is None else layers)
         self.set_foundation_properties()
         self.calc_fundamental_system()
diff --git a/weac/tools.py b/weac/tools.py
index 7ef33f4..0eb6880 100644
--- a/weac/tools.py
+++ b/weac/tools.py
@@ -301,7 +301,7 @@ def touchdown_distance(
     # Check if layering is defined
     layers = (
         layers
-        if layers
+        if layers is not None
         else [
             [240, 200],
         ]
-- 
2.43.0


From f726977792daefebcffa1ea93e288c24a2f27751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 09/26] fix: solve single-segment systems without modifying the
 input

The dummy segment was appended to the caller's lists (or failed for
arrays) and its constants were returned as an additional column.
---
 weac/mixins.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index fc2231a..282d22e 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1143,8 +1143,12 @@ class SolutionMixin:
 
         # --- PREPROCESSING ---------------------------------------------------
 
+        # Do not modify inputs
+        li, mi, ki = list(li), list(mi), list(ki)
+
         # Determine size of linear system of equations
         nS = len(li)  # Number of beam segments
+        nC = nS  # Number of segments to return constants for
 
         nDOF = 6  # Number of free constants per segment
 
@@ -1246,7 +1250,7 @@ class SolutionMixin:
         # Solve z0 = zh0*C + zp0 = rhs for constants, i.e. zh0*C = rhs - zp0
         C = np.linalg.solve(zh0, rhs - zp0)
         # Sort (nDOF = 6) constants for each segment into columns of a matrix
-        return C.reshape([-1, nDOF]).T
+        return C.reshape([-1, nDOF])[:nC].T
 
 
 class AnalysisMixin:
-- 
2.43.0


From 2e426928ac188d7e5239d46d22cdd495227c2b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 10/26] fix: accept segment lists in rasterize_solution and
 gdif

---
 weac/mixins.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 282d22e..808e769 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1302,7 +1302,7 @@ class AnalysisMixin:
         _ = kwargs
 
         # Drop zero-length segments
-        li = abs(li)
+        li, ki = np.abs(li), np.asarray(ki)
         isnonzero = li > 0
         C, ki, li = C[:, isnonzero], ki[isnonzero], li[isnonzero]
 
@@ -1426,6 +1426,9 @@ class AnalysisMixin:
         # Unused arguments
         _ = kwargs
 
+        # Make sure inputs are np.arrays
+        ki = np.asarray(ki)
+
         # Get number and indices of segment transitions
         ntr = len(li) - 1
         itr = np.arange(ntr)
-- 
2.43.0


From 154d1ca203abebf9e688e94e364fefc5c4c77b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 11/26] fix: restore the model when a substitute stiffness
 computation fails

An exception (e.g. a singular system or a keyboard interrupt) left the
model in the temporary substitute system with scaled stiffnesses.
---
 weac/mixins.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/weac/mixins.py b/weac/mixins.py
index 808e769..8be19d5 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -592,6 +592,15 @@ class SlabContactMixin:
         -------
         k : stiffness of substitute spring.
         """
+        # Restore the model even if the computation fails
+        attributes = dict(vars(self))
+        try:
+            return self._substitute_stiffness(L, support, dof)
+        finally:
+            vars(self).update(attributes)
+
+    def _substitute_stiffness(self, L, support, dof):
+        """Calc substitute stiffness with temporarily modified system."""
         # adjust system to substitute system
         if dof in ["rot"]:
             tempsys = self.system
-- 
2.43.0


From ede020058cd97f3f48df128b9d2356c89699290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 12/26] fix: exclude slab weight from translational spring
 stiffness

The deflection used for the substitute spring included the settlement of
the supported part under its own weight and surface load.
---
 weac/mixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 8be19d5..e6813c1 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -631,7 +631,9 @@ class SlabContactMixin:
         if dof in ["rot"]:
             k = abs(1 / self.psi(z_pst)[0])
         if dof in ["trans"]:
-            k = abs(1 / self.w(z_pst)[0])
+            # Disregard uniform settlement under slab weight and surface load
+            w0 = self.w(self.zp(0, phi=0, bed=True))
+            k = abs(1 / (self.w(z_pst) - w0)[0])
 
         # Reset to previous system and eigensystem
         self.system = tempsys
-- 
2.43.0


From d789dc288e797257b3f71df9bacf07533c01123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 13/26] fix: restrict touchdown to PSTs with slope-normal faces

Contact conditions are only implemented for pst- and -pst. For PSTs with
vertical faces the collapse height was prescribed as a shear force.
---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index e6813c1..69ffe3f 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -793,7 +793,7 @@ class SlabContactMixin:
 
     def calc_touchdown_mode(self):
         """Calculate touchdown-mode from thresholds"""
-        if self.touchdown:
+        if self.touchdown and self.system in ["pst-", "-pst"]:
             # Calculate stage transitions
             a1 = self.calc_a1()
             a2 = self.calc_a2()
-- 
2.43.0


From 79b859e5afcc676f1ff69e63a8541a37590e5d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 14/26] fix: axial slab stress must not depend on the mesh size

A body force times element size was added to the constitutive stress, so
the stresses did not integrate to the axial force and bending moment.
---
 weac/mixins.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 69ffe3f..c130377 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1534,8 +1534,6 @@ class AnalysisMixin:
 
         # Get mesh along z-axis
         zmesh = self.get_zmesh(dz=dz)
-        zi = zmesh[:, 0]
-        rho = 1e-12 * zmesh[:, 3]
 
         # Get dimensions of stress field (n rows, m columns)
         n = zmesh.shape[0]
@@ -1548,12 +1546,6 @@ class AnalysisMixin:
         for i, (z, E, nu, _) in enumerate(zmesh):
             Sxx[i, :] = E / (1 - nu**2) * self.du_dx(Z, z)
 
-        # Calculate weight load at grid points and superimpose on stress field
-        qt = -rho * self.g * np.sin(np.deg2rad(phi))
-        for i, qi in enumerate(qt[:-1]):
-            Sxx[i, :] += qi * (zi[i + 1] - zi[i])
-        Sxx[-1, :] += qt[-1] * (zi[-1] - zi[-2])
-
         # Return axial normal stress in specified unit
         return convert[unit] * Sxx
 
-- 
2.43.0


From a24a4ead5ab84dd9bd7e228806d7fee14faa3f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:06 +0000
Subject: [PATCH 15/26] fix: touchdown length right after full contact

For crack lengths up to 0.1 % above the full-contact length the root lies
outside the search bracket and calc_segments raised a ValueError.
---
 weac/mixins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weac/mixins.py b/weac/mixins.py
index c130377..6616a6f 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -778,6 +778,10 @@ class SlabContactMixin:
                 c1 * x**6 + c2 * x**5 + c3 * x**4 + c4 * x**3 + c5 * x**2 + c6 * x + c7
             )
 
+        # Rested part vanishes if the crack has just come into full contact
+        if polynomial(999 / 1000 * a) < 0:
+            return 999 / 1000 * a
+
         # Find root
         lC = brentq(polynomial, a / 1000, 999 / 1000 * a)
 
-- 
2.43.0


From af0f4ceab503da0dd70c041549b0c0d536dc5f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 16/26] fix: evaluate crack-tip stresses on the supported side

With a skier exactly at a crack tip the deflection slope jumps across the
tip. The weak-layer stress was taken from the left segment even if that
segment is unsupported, so that mirrored models gave different rates.
---
 weac/mixins.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 6616a6f..7556f8c 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1460,8 +1460,11 @@ class AnalysisMixin:
 
         # Compute energy relase rate of all crack tips
         for j, idx in enumerate(ict):
-            # Solution at crack tip
-            z = self.z(li[idx], C[:, [idx]], li[idx], phi, bed=ki[idx])
+            # Solution at crack tip (on its supported side)
+            if ki[idx]:
+                z = self.z(li[idx], C[:, [idx]], li[idx], phi, bed=True)
+            else:
+                z = self.z(0, C[:, [idx + 1]], li[idx + 1], phi, bed=True)
             # Mode I and II differential energy release rates
             Gdif[1:, j] = np.concatenate(
                 (self.Gi(z, unit=unit), self.Gii(z, unit=unit))
-- 
2.43.0


From a472f6f18169b119ff4477706dfe898d94c4a4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 17/26] fix: default layering of Inverse

Layers are documented as optional but None raised an IndexError.
---
 weac/inverse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weac/inverse.py b/weac/inverse.py
index 40ccd5f..be59520 100644
--- a/weac/inverse.py
+++ b/weac/inverse.py
@@ -50,6 +50,7 @@ class Inverse(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
         C0, C1, Eweak = parameters
 
         # Set material properties and set up model
-        self.set_beam_properties(layers=layers, C0=C0, C1=C1)
+        self.set_beam_properties(
+            [[240, 200], ] if layers is None else layers, C0=C0, C1=C1)
         self.set_foundation_properties(E=Eweak)
         self.calc_fundamental_system()
-- 
2.43.0


From c8bf91b8a3e7b60e187414b692be4c14c75a7fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 18/26] fix: allow plots without segments

---
 weac/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/plot.py b/weac/plot.py
index 7c753d3..e7e9e3f 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -406,7 +406,7 @@ def plot_data(
         name, ax1data, ax1label,
         ax2data=None, ax2label=None,
         labelpos=None, vlines=True,
-        li=False, mi=False, ki=False,
+        li=(), mi=(), ki=(),
         xlabel=r'Horizontal position $x$ (cm)'):
     """Plot data. Base function."""
     # Figure setup
-- 
2.43.0


From 02fb220df342cf2f51f238311820343539e1fcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 19/26] fix: draw contour plots into their own figure

---
 weac/plot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weac/plot.py b/weac/plot.py
index e7e9e3f..3e24555 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -245,8 +245,11 @@ def deformed(instance, xsl, xwl, z, phi, dz=2, scale=100,
     # Set dark figure background if requested
     if dark:
         plt.style.use('dark_background')
-        fig = plt.figure()
-        ax = plt.gca()
+
+    # Create figure
+    fig = plt.figure()
+    ax = fig.gca()
+    if dark:
         fig.set_facecolor('#282c34')
         ax.set_facecolor('white')
 
-- 
2.43.0


From c5ab4e72d5f11da3f74f03c9b07a91ddfe9b5bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 20/26] fix: keep plot labels within the data range

---
 weac/plot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weac/plot.py b/weac/plot.py
index 3e24555..c0bf98c 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -473,8 +473,11 @@ def plot_data(
             # Line label
             x, y = x[~np.isnan(x)], y[~np.isnan(x)]
             if len(x) > 0:
-                xtx = (x[labelpos - 10*i - 1] + x[labelpos - 10*i])/2
-                ytx = (y[labelpos - 10*i - 1] + y[labelpos - 10*i])/2
+                # Keep label within data range
+                j = labelpos - 10*i
+                j = int(np.clip(j if j > 0 else j + len(x), 1, len(x) - 1))
+                xtx = (x[j - 1] + x[j])/2
+                ytx = (y[j - 1] + y[j])/2
                 ax1.text(xtx, ytx, label, color=line.get_color(),
                          **labelstyle)
 
-- 
2.43.0


From 07a3f2a1b88965bcffda4c5df31e19960720e84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:17 +0000
Subject: [PATCH 21/26] fix: create contour figure only for valid fields

---
 weac/plot.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/weac/plot.py b/weac/plot.py
index c0bf98c..845a28d 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -246,13 +246,6 @@ def deformed(instance, xsl, xwl, z, phi, dz=2, scale=100,
     if dark:
         plt.style.use('dark_background')
 
-    # Create figure
-    fig = plt.figure()
-    ax = fig.gca()
-    if dark:
-        fig.set_facecolor('#282c34')
-        ax.set_facecolor('white')
-
     # Calculate top-to-bottom vertical positions (mm) in beam coordinate system
     zi = instance.get_zmesh(dz=dz)[:, 0]
     h = instance.h
@@ -345,6 +338,13 @@ def deformed(instance, xsl, xwl, z, phi, dz=2, scale=100,
     # nanmin = np.nanmin([slab.min(), weak.min()])
     # norm = MidpointNormalize(vmin=nanmin, vmax=nanmax)
 
+    # Create figure
+    fig = plt.figure()
+    ax = fig.gca()
+    if dark:
+        fig.set_facecolor('#282c34')
+        ax.set_facecolor('white')
+
     # Plot baseline
     plt.axhline(zmax, color='k', linewidth=1)
 
-- 
2.43.0


From e6a0bd926cfdcb56afde37814db8269bf4883857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:17 +0000
Subject: [PATCH 22/26] fix: do not modify the shared colormap

---
 weac/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/plot.py b/weac/plot.py
index 845a28d..8a6e3db 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -362,7 +362,7 @@ def deformed(instance, xsl, xwl, z, phi, dz=2, scale=100,
                  'k', linewidth=1)
 
     # Colormap
-    cmap = plt.cm.RdBu_r
+    cmap = plt.cm.RdBu_r.copy()
     cmap.set_over(adjust_lightness(cmap(1.0), 0.9))
     cmap.set_under(adjust_lightness(cmap(0.0), 0.9))
 
-- 
2.43.0


From c90d7ffe802deebf3fd9573328587e54d969fc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 23/26] fix: work of surface load and integration in external
 potential

---
 weac/mixins.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 7556f8c..4ffc336 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -6,7 +6,7 @@ from functools import partial
 
 # Third party imports
 import numpy as np
-from scipy.integrate import cumulative_trapezoid, quad
+from scipy.integrate import cumulative_trapezoid, quad, trapezoid
 from scipy.optimize import brentq
 
 # Module imports
@@ -1826,29 +1826,26 @@ class OutputMixin:
             Total external potential (Nmm).
         """
         # Rasterize solution
-        xq, zq, xb = self.rasterize_solution(C=C, phi=phi, **segments)
-        _ = xq, xb
-        # Compute displacements where weight loads are applied
+        xq, zq, _ = self.rasterize_solution(C=C, phi=phi, **segments)
+        # Compute displacements where weight and surface loads are applied
         w0 = self.w(zq)
         us = self.u(zq, z0=self.zs)
-        # Get weight loads
-        qn = self.calc_qn()
-        qt = self.calc_qt()
+        up = self.u(zq, z0=-self.h / 2)
+        # Get weight and surface loads
+        qn = self.get_weight_load(phi)[0] + self.get_surface_load(phi)[0]
+        qt = self.get_weight_load(phi)[1]
+        pt = self.get_surface_load(phi)[1]
+        # Length of slab resting on the collapsed weak layer
+        Lrested = L - np.sum(segments["li"])
         # use +/- and us[0]/us[-1] according to system and phi
         # compute total external potential
-        Pi_ext = (
-            -qn * (segments["li"][0] + segments["li"][1]) * np.average(w0)
-            - qn * (L - (segments["li"][0] + segments["li"][1])) * self.tc
-        )
+        Pi_ext = -qn * trapezoid(w0, xq) - qn * Lrested * self.tc
         # Ensure
         if self.system in ["pst-"]:
-            ub = us[-1]
+            ub = qt * us[-1] + pt * up[-1]
         elif self.system in ["-pst"]:
-            ub = us[0]
-        Pi_ext += (
-            -qt * (segments["li"][0] + segments["li"][1]) * np.average(us)
-            - qt * (L - (segments["li"][0] + segments["li"][1])) * ub
-        )
+            ub = qt * us[0] + pt * up[0]
+        Pi_ext += -trapezoid(qt * us + pt * up, xq) - Lrested * ub
         if self.system not in ["pst-", "-pst"]:
             print("Input error: Only pst-setup implemented at the moment.")
 
-- 
2.43.0


From 0ee44470bcde1caa645fbed468cdd719c288aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 24/26] fix: strain energy in internal potential

---
 weac/mixins.py | 40 ++++++++++++++++------------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 4ffc336..1c277ff 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1880,34 +1880,26 @@ class OutputMixin:
         # Compute section forces
         N, M, V = self.N(zq), self.M(zq), self.V(zq)
 
-        # Drop parts of the solution that are not a foundation
-        zweak = zq[:, ~np.isnan(xb)]
-        xweak = xb[~np.isnan(xb)]
-
-        # Compute weak layer displacements
-        wweak = self.w(zweak)
-        uweak = self.u(zweak, z0=self.h / 2)
-
-        # Compute stored energy of the slab (monte-carlo integration)
-        n = len(xq)
-        nweak = len(xweak)
-        # energy share from moment, shear force, wl normal and tangential springs
-        Pi_int = (
-            L / 2 / n / self.A11 * np.sum([Ni**2 for Ni in N])
-            + L
-            / 2
-            / n
-            / (self.D11 - self.B11**2 / self.A11)
-            * np.sum([Mi**2 for Mi in M])
-            + L / 2 / n / self.kA55 * np.sum([Vi**2 for Vi in V])
-            + L * self.kn / 2 / nweak * np.sum([wi**2 for wi in wweak])
-            + L * self.kt / 2 / nweak * np.sum([ui**2 for ui in uweak])
+        # Compute strain energy per unit length of the slab
+        k11 = self.D11 - self.B11**2 / self.A11
+        Pi_slab = (
+            N**2 / self.A11
+            + (M - self.B11 / self.A11 * N) ** 2 / k11
+            + V**2 / self.kA55
+        ) / 2
+        # Compute energy per unit length of wl normal and tangential springs
+        # (drop parts of the solution that are not a foundation)
+        Pi_weak = (self.sig(zq) ** 2 / self.kn + self.tau(zq) ** 2 / self.kt) / 2
+        Pi_weak[np.isnan(xb)] = np.nan
+        # Integrate along the slab and along its supported parts
+        Pi_int = trapezoid(Pi_slab, xq) + np.nansum(
+            np.diff(xq) * (Pi_weak[1:] + Pi_weak[:-1]) / 2
         )
         # energy share from substitute rotation spring
         if self.system in ["pst-"]:
-            Pi_int += 1 / 2 * M[-1] * (self.psi(zq)[-1]) ** 2
+            Pi_int -= 1 / 2 * M[-1] * self.psi(zq)[-1]
         elif self.system in ["-pst"]:
-            Pi_int += 1 / 2 * M[0] * (self.psi(zq)[0]) ** 2
+            Pi_int += 1 / 2 * M[0] * self.psi(zq)[0]
         else:
             print("Input error: Only pst-setup implemented at the moment.")
 
-- 
2.43.0


From 6ea5d23f44db0b8616d12f57b1071bac9a07acb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 25/26] fix: solve assemblies on models that never computed
 segments

---
 weac/eigensystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/eigensystem.py b/weac/eigensystem.py
index f50653b..95bb4c6 100644
--- a/weac/eigensystem.py
+++ b/weac/eigensystem.py
@@ -147,7 +147,7 @@ class Eigensystem:
         self.ratio = False          # Stiffness ratio of collapsed to uncollapsed weak-layer
         self.betaU = False          # Ratio of slab to bedding stiffness (uncollapsed)
         self.betaC = False          # Ratio of slab to bedding stiffness (collapsed)
-        self.mode = False           # Touchdown-mode can be either A, B, C or D
+        self.mode = 'A'             # Touchdown-mode can be either A, B or C
         self.td = False             # Touchdown length
 
     def set_foundation_properties(
-- 
2.43.0


From f4eda750bb924834bfad5092d45dbaf7d80579c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:21 +0000
Subject: [PATCH 26/26] fix: plot folder created by another process in the
 meantime

---
 weac/plot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weac/plot.py b/weac/plot.py
index 8a6e3db..7622f30 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -627,7 +627,6 @@ def save_plot(name):
     # Save figure if on terminal
     else:
         # Make directory if not yet existing
-        if not os.path.isdir(os.path.join(os.getcwd(), 'plots')):
-            os.mkdir('plots')
+        os.makedirs('plots', exist_ok=True)
         plt.savefig('plots/' + filename, bbox_inches='tight')
     return
-- 
2.43.0

