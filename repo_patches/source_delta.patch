From ef7d542375db38f7ed4b9cd227f13f6791d37e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 01/33] fix: kep_to_cart no longer modifies its input array

---
 pyorb/kepler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 0e297d2..edb2f02 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1717,6 +1717,9 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
         raise ValueError(f'Input data must have at least 6 variables \
             along axis 0: input shape is {kep.shape}')
 
+    # work on a copy: the callers array must not be changed
+    kep = kep.copy()
+
     if len(kep.shape) < 2:
         input_is_vector = True
         try:
@@ -1780,9 +1783,5 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
 
     if input_is_vector:
         x.shape = (6,)
-        kep.shape = (6,)
-
-    if degrees:
-        kep[2:, ...] = np.degrees(kep[2:, ...])
 
     return x
-- 
2.43.0


From 1452e2917077924860636616e0c03c0cc9754048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 02/33] fix: cart_to_kep returns the periapsis distance of
 parabolic orbits

---
 pyorb/kepler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index edb2f02..531ba45 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -416,6 +416,10 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
     hn = np.linalg.norm(h, axis=0)
     o[2, :] = np.arccos(h[2, :]/hn)
 
+    # parabolic orbits: the size element is the periapsis distance
+    par = o[1, :] == 1
+    o[0, par] = (hn**2/(2.0*mu))[par]
+
     # possible cases
     eg = o[1, :] > e_lim  # e grater
     # i grater (include retrograde planar orbits)
-- 
2.43.0


From 70401c4c7990a2e71bd88b92039ac1450275225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 03/33] fix: true_to_eccentric wraps only the elliptic anomaly

---
 pyorb/kepler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 531ba45..b9807b5 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -669,6 +669,7 @@ def true_to_eccentric(nu, e, degrees=False):
         E[eli] = 2.0*np.arctan(
             np.sqrt((1.0 - e[eli])/(1.0 + e[eli]))*np.tan(_nu[eli]*0.5)
         )
+        E[eli] = np.mod(E[eli] + 2.*np.pi, 2.*np.pi)
     else:
         if e > 1:
             E = 2.0*np.arctanh(np.sqrt((e - 1.0)/(e + 1.0))*np.tan(_nu*0.5))
@@ -676,8 +677,7 @@ def true_to_eccentric(nu, e, degrees=False):
             E = np.tan(_nu*0.5)
         else:
             E = 2.0*np.arctan(np.sqrt((1.0 - e)/(1.0 + e))*np.tan(_nu*0.5))
-
-    E = np.mod(E + 2.*np.pi, 2.*np.pi)
+            E = np.mod(E + 2.*np.pi, 2.*np.pi)
 
     if degrees:
         E = np.degrees(E)
-- 
2.43.0


From 719b2c42f4ae34252502f5689af51e0803a4bec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 04/33] fix: initial guess for negative hyperbolic mean anomaly

---
 pyorb/kepler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index b9807b5..51951bd 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1148,7 +1148,7 @@ def _get_hyperbolic_kepler_guess(M, e):
         equation. II,” Celestial Mechanics, vol. 31, pp. 317–328, Nov. 1983,
         doi: 10.1007/BF01844230.
     '''
-    E0 = np.log(2*M/e + 1.8)
+    E0 = np.sign(M)*np.log(2*np.abs(M)/e + 1.8)
     return E0
 
 
-- 
2.43.0


From d07a4c25f9b653242b3af5f161d44c77e51060e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 05/33] fix: calc_eccentric_anomaly updates only the selected
 orbits

---
 pyorb/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index a735a50..e0be05e 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -885,7 +885,7 @@ class Orbit:
         :code:`self._eccentric_anomaly`.
         '''
         if self.type == 'mean':
-            self._eccentric_anomaly = functions.mean_to_eccentric(
+            self._eccentric_anomaly[inds] = functions.mean_to_eccentric(
                 self.anom[inds],
                 self.e[inds],
                 solver_options = self.solver_options,
-- 
2.43.0


From 99b67f52be377c48a678335cb4ce8181a5fc1386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 06/33] fix: period setter takes the value to set

---
 pyorb/orbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index e0be05e..f9611b1 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1047,11 +1047,11 @@ class Orbit:
         return functions.orbital_period(self.a, self.G*(self.M0 + self.m))
 
     @period.setter
-    def period(self):
+    def period(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self.a = functions.semi_major_axis(
-            self.period,
+            value,
             self.G*(self.M0 + self.m),
         )
         if self.direct_update:
-- 
2.43.0


From 3b0dfec0fe1ed72736d5de249d73bef5b847800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 07/33] fix: changing the anomaly type leaves the Cartesian
 state alone

---
 pyorb/orbit.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index f9611b1..9e11cf2 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -222,12 +222,14 @@ class Orbit:
         if val not in Orbit.ANOMALY:
             raise ValueError(f'Anomaly type "{val}" not recognized')
         if self.__type != val:
+            # only the description of the position on the orbit changes: the
+            # orbit itself, and with it the Cartesian state, stays the same
             if val == 'true':
-                self.anom = self.true_anomaly
+                self._kep[5, :] = self.true_anomaly
             elif val == 'eccentric':
-                self.anom = self.eccentric_anomaly
+                self._kep[5, :] = self.eccentric_anomaly
             elif val == 'mean':
-                self.anom = self.mean_anomaly
+                self._kep[5, :] = self.mean_anomaly
             self.__type = val
 
     def propagate(self, dt):
-- 
2.43.0


From b5c9ef67d905359c6dd958a5b1ad372283f6a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 08/33] fix: copies of an orbit know which of their elements
 are up to date

---
 pyorb/orbit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 9e11cf2..ac6f663 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -196,6 +196,9 @@ class Orbit:
             tmp_orb._cart.shape = (6, 1)
             tmp_orb._kep.shape = (6, 1)
 
+        tmp_orb.__cart_calculated[:] = self.__cart_calculated[inds]
+        tmp_orb.__kep_calculated[:] = self.__kep_calculated[inds]
+
         return tmp_orb
 
     def __len__(self):
-- 
2.43.0


From b9537fea2b7fd8fa50d1056fffc7ee907a745e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 09/33] fix: iterations over the same orbit are independent

---
 pyorb/orbit.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index ac6f663..7ac0c57 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -205,15 +205,8 @@ class Orbit:
         return self.num
 
     def __iter__(self):
-        self.__it = 0
-        return self
-
-    def __next__(self):
-        if self.__it < self.num:
-            self.__it += 1
-            return self[self.__it-1]
-        else:
-            raise StopIteration
+        for ind in range(self.num):
+            yield self[ind]
 
     @property
     def type(self):
-- 
2.43.0


From 872bd775ef200c65a46828540938544a54390243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 10/33] fix: setting single elements starts from the current
 state of the orbit

---
 pyorb/orbit.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 7ac0c57..09d2805 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -414,6 +414,7 @@ class Orbit:
             self.m[inds] = kwargs['m']
 
         if cart_updated:
+            self._cart_check()
             for ind, key in enumerate(Orbit.CARTESIAN):
                 if key in kwargs:
                     self._cart[ind, inds] = kwargs[key]
@@ -424,6 +425,7 @@ class Orbit:
                 self.__kep_calculated[inds] = False
                 self.__cart_calculated[inds] = True
         if kep_updated:
+            self._kep_check()
             for ind, key in enumerate(Orbit.KEPLER):
                 if key in kwargs:
                     self._kep[ind, inds] = kwargs[key]
@@ -519,6 +521,7 @@ class Orbit:
     def r(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[:3, :] = value
 
         if self.direct_update:
@@ -538,6 +541,7 @@ class Orbit:
     def v(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[3:, :] = value
 
         if self.direct_update:
@@ -582,12 +586,14 @@ class Orbit:
     def x(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[0, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def y(self):
@@ -600,12 +606,14 @@ class Orbit:
     def y(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[1, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def z(self):
@@ -618,12 +626,14 @@ class Orbit:
     def z(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[2, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def vx(self):
@@ -636,12 +646,14 @@ class Orbit:
     def vx(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[3, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def vy(self):
@@ -654,12 +666,14 @@ class Orbit:
     def vy(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[4, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def vz(self):
@@ -672,12 +686,14 @@ class Orbit:
     def vz(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[5, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def kepler(self):
@@ -715,12 +731,14 @@ class Orbit:
     def a(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[0, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def e(self):
@@ -733,12 +751,14 @@ class Orbit:
     def e(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[1, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def i(self):
@@ -751,12 +771,14 @@ class Orbit:
     def i(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[2, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def omega(self):
@@ -769,12 +791,14 @@ class Orbit:
     def omega(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[3, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def Omega(self):
@@ -787,12 +811,14 @@ class Orbit:
     def Omega(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[4, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def anom(self):
@@ -806,12 +832,14 @@ class Orbit:
     def anom(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[5, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def mean_motion(self):
-- 
2.43.0


From ff1395e0fa40f406b0f2ce818b0032ac11934330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 11/33] fix: update recalculates only the orbits it was asked
 to update

---
 pyorb/orbit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 09d2805..5b7338b 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -373,7 +373,7 @@ class Orbit:
                     Cartesian elements')
             self._cart[:, inds] = kwargs['cartesian']
             if self.direct_update:
-                self.calculate_kepler()
+                self.calculate_kepler(inds)
             else:
                 self.__cart_calculated[inds] = True
                 self.__kep_calculated[inds] = False
@@ -384,7 +384,7 @@ class Orbit:
                 raise AttributeError('Cannot update read only Kepler elements')
             self._kep[:, inds] = kwargs['kepler']
             if self.direct_update:
-                self.calculate_cartesian()
+                self.calculate_cartesian(inds)
             else:
                 self.__kep_calculated[inds] = True
                 self.__cart_calculated[inds] = False
@@ -420,7 +420,7 @@ class Orbit:
                     self._cart[ind, inds] = kwargs[key]
 
             if self.direct_update:
-                self.calculate_kepler()
+                self.calculate_kepler(inds)
             else:
                 self.__kep_calculated[inds] = False
                 self.__cart_calculated[inds] = True
@@ -431,7 +431,7 @@ class Orbit:
                     self._kep[ind, inds] = kwargs[key]
 
             if self.direct_update:
-                self.calculate_cartesian()
+                self.calculate_cartesian(inds)
             else:
                 self.__cart_calculated[inds] = False
                 self.__kep_calculated[inds] = True
-- 
2.43.0


From 2d19b0863105b9f389104b7530b75f2cc80c5b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 12/33] fix: equinoctial setter respects read only and is not
 overwritten

---
 pyorb/orbit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 5b7338b..e9598b6 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1058,11 +1058,15 @@ class Orbit:
 
     @equinoctial.setter
     def equinoctial(self, vals):
+        if self.kepler_read_only:
+            raise AttributeError('Cannot update read only Kepler elements')
         elems = functions.equi_to_kep(vals, degrees=self.degrees)
         tmp_elms = elems[:5, ...]
         if len(tmp_elms.shape) == 1:
             tmp_elms.shape = (5, 1)
         self._kep[:5, ...] = tmp_elms
+        # the elements just written are the current ones
+        self.__kep_calculated[:] = True
         self.mean_anomaly = elems[5, ...]
 
     @property
-- 
2.43.0


From c2c8c427cd91a79b513f6c26f1a8d2ebf768ee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 13/33] fix: update refreshes the elements before the mass
 changes

---
 pyorb/orbit.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index e9598b6..02c31e1 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -407,6 +407,12 @@ class Orbit:
                         Keplerian elements simultaneously.')
                 kep_updated = True
 
+        # start from the current state of the orbits
+        if cart_updated:
+            self._cart_check()
+        if kep_updated:
+            self._kep_check()
+
         if 'm' in kwargs:
             if self.direct_update:
                 raise ValueError('Cannot set "m" and direct update, \
@@ -414,7 +420,6 @@ class Orbit:
             self.m[inds] = kwargs['m']
 
         if cart_updated:
-            self._cart_check()
             for ind, key in enumerate(Orbit.CARTESIAN):
                 if key in kwargs:
                     self._cart[ind, inds] = kwargs[key]
@@ -425,7 +430,6 @@ class Orbit:
                 self.__kep_calculated[inds] = False
                 self.__cart_calculated[inds] = True
         if kep_updated:
-            self._kep_check()
             for ind, key in enumerate(Orbit.KEPLER):
                 if key in kwargs:
                     self._kep[ind, inds] = kwargs[key]
-- 
2.43.0


From 094544838219d25e751c829df29686ee250a238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 14/33] fix: propagate wraps the mean anomaly of closed orbits
 only

---
 pyorb/orbit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 02c31e1..f63a8e5 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -236,8 +236,11 @@ class Orbit:
             wrap_ = 360.0
         else:
             wrap_ = 2*np.pi
-        self.mean_anomaly = np.mod(
-            self.mean_anomaly + self.mean_motion*dt, wrap_)
+        mean_anomaly = self.mean_anomaly + self.mean_motion*dt
+        # only closed orbits are periodic
+        closed = self.e < 1
+        mean_anomaly[closed] = np.mod(mean_anomaly[closed], wrap_)
+        self.mean_anomaly = mean_anomaly
         if self.direct_update:
             self.calculate_cartesian()
 
-- 
2.43.0


From a7eb1cb76c0240830ba775ed66d650b34b5a7db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 15/33] fix: mean motion of parabolic orbits

---
 pyorb/orbit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index f63a8e5..040292d 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -857,7 +857,10 @@ class Orbit:
         else:
             norm_ = np.pi*2.0
 
-        return norm_/self.period
+        n = norm_/self.period
+        # Barker's equation in terms of the periapsis distance
+        n[self.e == 1] /= np.sqrt(2.0)
+        return n
 
     @mean_motion.setter
     def mean_motion(self, value):
-- 
2.43.0


From 4171ec21c524d90937bd22f90f6af31c3960a890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 16/33] fix: periapsis and apoapsis of open orbits

---
 pyorb/orbit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 040292d..8e1d39b 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1047,11 +1047,13 @@ class Orbit:
 
     @property
     def apoapsis(self):
-        return (1.0 + self.e)*self.a
+        e, a = self.e, self.a
+        return np.where(e < 1, (1.0 + e)*a, np.inf)
 
     @property
     def periapsis(self):
-        return (1.0 - self.e)*self.a
+        e, a = self.e, self.a
+        return np.where(e == 1, a, np.abs(1.0 - e)*a)
 
     @property
     def mean_longitude(self):
-- 
2.43.0


From 27875e4359be288530e7162546587aa52a639aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 17/33] fix: orbital speed on parabolic and hyperbolic orbits

---
 pyorb/orbit.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 8e1d39b..074430c 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1124,13 +1124,19 @@ class Orbit:
         '''Orbital speed (from kepler)
         '''
         self._kep_check()
+        mu = self.G*(self.M0 + self.m)
+        a, e = self.a, self.e
+        # semi-latus rectum and (signed) semi-major axis for all conics
+        p = np.where(e == 1, 2.0*a, a*np.abs(1.0 - e**2))
+        a = np.where(e < 1, a, np.where(e > 1, -a, np.inf))
         return functions.orbital_speed(
-            functions.elliptic_radius(
-                self.eccentric_anomaly,
-                self.a,
-                self.e,
+            functions.orbital_distance(
+                np.sqrt(mu*p),
+                mu,
+                e,
+                self.true_anomaly,
                 degrees=self.degrees,
             ),
-            self.a,
-            self.G*(self.M0 + self.m),
+            a,
+            mu,
         )
-- 
2.43.0


From 2d1ccf756455c4df52669b254265ef9545676752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 18/33] fix: kep_equivalent compares the eccentricities

---
 pyorb/kepler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 51951bd..ca45c93 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -564,6 +564,9 @@ def kep_equivalent(kep1, kep2):
     if not np.isclose(kep1[K_a], kep2[K_a]):
         return False
 
+    if not np.isclose(kep1[K_e], kep2[K_e]):
+        return False
+
     # if eccentricity is (near) zero, then only the sum of omega and nu matter
     if kep1[K_e] < e_lim and kep2[K_e] < e_lim:
         if not np.isclose(kep1[K_om] + kep1[K_nu], kep2[K_om] + kep2[K_nu]):
-- 
2.43.0


From 90766322aaf5f8bf85e8653ed4dd2c90f7688cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 19/33] fix: kep_equivalent accounts for the node of planar
 orbits

---
 pyorb/kepler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index ca45c93..6783e8c 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -567,13 +567,19 @@ def kep_equivalent(kep1, kep2):
     if not np.isclose(kep1[K_e], kep2[K_e]):
         return False
 
+    # if inclination is (near) zero, then only the sum of Omega and omega matter
+    om1, om2 = kep1[K_om], kep2[K_om]
+    if kep1[K_i] <= i_lim and kep2[K_i] <= i_lim:
+        om1 = om1 + kep1[K_OM]
+        om2 = om2 + kep2[K_OM]
+
     # if eccentricity is (near) zero, then only the sum of omega and nu matter
     if kep1[K_e] < e_lim and kep2[K_e] < e_lim:
-        if not np.isclose(kep1[K_om] + kep1[K_nu], kep2[K_om] + kep2[K_nu]):
+        if not np.isclose(om1 + kep1[K_nu], om2 + kep2[K_nu]):
             return False
     else:  # otherwise, they must match up individually
         if (
-            not np.isclose(kep1[K_om], kep2[K_om])
+            not np.isclose(om1, om2)
             or not np.isclose(kep1[K_nu], kep2[K_nu])
         ):
             return False
-- 
2.43.0


From 43bc8be04e25669bbef6da170a2be85e3df77a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 20/33] fix: Stumpff functions accept floats and integers

---
 pyorb/kepler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 6783e8c..13b6610 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1497,6 +1497,7 @@ def stumpff0(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
+    x = np.asarray(x, dtype=np.float64)
     c0 = np.empty_like(x)
     inds = x > 0
     c0[inds] = np.cos(np.sqrt(x[inds]))
@@ -1525,6 +1526,7 @@ def stumpff1(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
+    x = np.asarray(x, dtype=np.float64)
     c1 = np.empty_like(x)
     inds = x > 0
     c1[inds] = np.sin(np.sqrt(x[inds]))/np.sqrt(x[inds])
@@ -1553,6 +1555,7 @@ def stumpff2(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
+    x = np.asarray(x, dtype=np.float64)
     c2 = np.empty_like(x)
     inds = x > 0
     c2[inds] = (1 - np.cos(np.sqrt(x[inds])))/x[inds]
@@ -1581,6 +1584,7 @@ def stumpff3(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
+    x = np.asarray(x, dtype=np.float64)
     c3 = np.empty_like(x)
     inds = x > 0
     xsq = np.sqrt(x[inds])
-- 
2.43.0


From 06f7038ea40160be7b7c4231554f2760b15551d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 21/33] fix: update accepts single state vectors like the
 property setters

---
 pyorb/orbit.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 074430c..5748a2b 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -341,6 +341,13 @@ class Orbit:
         self.__cart_calculated = np.full((num,), False, dtype=np.bool_)
         self.__kep_calculated = np.full((num,), False, dtype=np.bool_)
 
+    def _columns(self, value, inds):
+        # a single state vector is given to each of the selected orbits
+        if isinstance(value, np.ndarray) and len(value.shape) == 1 \
+                and len(self._cart[:, inds].shape) == 2:
+            return value[:, None]
+        return value
+
     def update(self, inds=slice(None, None, None), **kwargs):
         '''Calculates Keplerian elements based on Cartesian elements
 
@@ -374,7 +381,7 @@ class Orbit:
             if self.cartesian_read_only:
                 raise AttributeError('Cannot update read only \
                     Cartesian elements')
-            self._cart[:, inds] = kwargs['cartesian']
+            self._cart[:, inds] = self._columns(kwargs['cartesian'], inds)
             if self.direct_update:
                 self.calculate_kepler(inds)
             else:
@@ -385,7 +392,7 @@ class Orbit:
         if 'kepler' in kwargs:
             if self.kepler_read_only:
                 raise AttributeError('Cannot update read only Kepler elements')
-            self._kep[:, inds] = kwargs['kepler']
+            self._kep[:, inds] = self._columns(kwargs['kepler'], inds)
             if self.direct_update:
                 self.calculate_cartesian(inds)
             else:
-- 
2.43.0


From 65fe57e322395f656419655cbdffedf7db681f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 22/33] fix: add leaves the orbits alone if the update is
 rejected

---
 pyorb/orbit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 5748a2b..4cec94e 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -321,7 +321,11 @@ class Orbit:
             self.m[inds] = kwargs['m']
             del kwargs['m']
 
-        self.update(inds = inds, **kwargs)
+        try:
+            self.update(inds = inds, **kwargs)
+        except (AttributeError, ValueError):
+            self.delete(inds)
+            raise
 
     def allocate(self, num):
         '''Changes the current allocation of orbits to a fixed number.
-- 
2.43.0


From 33f4cb536d77cd4c84010239add995937927735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 23/33] fix: print the current elements of lazily updated
 orbits

---
 pyorb/orbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 4cec94e..974f2c4 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -140,8 +140,8 @@ class Orbit:
                 f'{kkey:<5}: {kval:<.4e}   {ckey:<2}: {cval:<.4e}'
                 for kval, kkey, cval, ckey in
                 zip(
-                    self._kep[:, 0], Orbit.KEPLER,
-                    self._cart[:, 0], Orbit.CARTESIAN
+                    self.kepler[:, 0], Orbit.KEPLER,
+                    self.cartesian[:, 0], Orbit.CARTESIAN
                 )
             ])
         else:
-- 
2.43.0


From 8099343291436db0670ad32909fb7306901d817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:02 +0000
Subject: [PATCH 24/33] fix: entries of reversed or transposed anomaly arrays
 were mixed up

---
 pyorb/kepler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 13b6610..95d780a 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1234,9 +1234,9 @@ def kepler_guess(M, e):
         E0 = np.empty(M.shape, dtype=M.dtype)
 
         out_it = E0.size
-        Mit = np.nditer(M)
-        eit = np.nditer(e)
-        Eit = np.nditer(E0, op_flags=['readwrite'])
+        Mit = np.nditer(M, order='C')
+        eit = np.nditer(e, order='C')
+        Eit = np.nditer(E0, op_flags=['readwrite'], order='C')
 
         for it in range(out_it):
             Mc = next(Mit)
@@ -1312,9 +1312,9 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
             return E
 
         out_it = E.size
-        Mit = np.nditer(_M)
-        eit = np.nditer(e)
-        Eit = np.nditer(E, op_flags=['readwrite'])
+        Mit = np.nditer(_M, order='C')
+        eit = np.nditer(e, order='C')
+        Eit = np.nditer(E, op_flags=['readwrite'], order='C')
 
         for it in range(out_it):
             Mc = next(Mit)
-- 
2.43.0


From ad484f3f657e3fd74c3b2c4829c0ad62921e07b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 25/33] fix: equinoctial elements of a single orbit can be set
 in radians

---
 pyorb/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 974f2c4..fab6930 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1090,7 +1090,7 @@ class Orbit:
         self._kep[:5, ...] = tmp_elms
         # the elements just written are the current ones
         self.__kep_calculated[:] = True
-        self.mean_anomaly = elems[5, ...]
+        self.mean_anomaly = elems[5]
 
     @property
     def period(self):
-- 
2.43.0


From 4b6f6cc3dad4d5e745d7f9e1fa09da1131343870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:05 +0000
Subject: [PATCH 26/33] fix: integer arrays were converted to truncated results

---
 pyorb/kepler.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 95d780a..f9fc0b4 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -147,6 +147,13 @@ considered not inclined
 """
 
 
+def _real(x):
+    # results for integer arrays would be truncated to integers
+    if isinstance(x, np.ndarray) and x.dtype.kind in 'iu':
+        return x.astype(np.float64)
+    return x
+
+
 def cart_to_equi(cart, mu=GM_sol, degrees=False):
     '''Converts set of Cartesian state vectors to set of Equinoctial orbital
     elements.
@@ -254,6 +261,7 @@ def kep_to_equi(kep, degrees=False):
         :math:`q`, :math:`\\lambda_0`, and columns correspond to different
         objects.  If input is in degrees, :math:`\\lambda_0` is in degrees.
     '''
+    kep = _real(kep)
     _circ = 360.0 if degrees else _2pi
     om_bar = kep[K_om, ...] + kep[K_OM, ...]
     OM = kep[K_OM, ...]
@@ -303,6 +311,7 @@ def equi_to_kep(equi, degrees=False):
 
     '''
 
+    equi = _real(equi)
     _circ = 360.0 if degrees else _2pi
     kep = np.empty(equi.shape, dtype=equi.dtype)
 
@@ -374,6 +383,8 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
             f'Input data must have at least 6 variables along axis 0:\
              input shape is {cart.shape}')
 
+    cart = _real(cart)
+
     if len(cart.shape) < 2:
         input_is_vector = True
         try:
@@ -657,6 +668,7 @@ def true_to_eccentric(nu, e, degrees=False):
         _nu = np.radians(nu)
     else:
         _nu = nu
+    _nu, e = _real(_nu), _real(e)
 
     if isinstance(_nu, np.ndarray) or isinstance(e, np.ndarray):
         if not isinstance(_nu, np.ndarray):
@@ -716,6 +728,7 @@ def eccentric_to_true(E, e, degrees=False):
         _E = np.radians(E)
     else:
         _E = E
+    _E, e = _real(_E), _real(e)
 
     if isinstance(_E, np.ndarray) or isinstance(e, np.ndarray):
         if not isinstance(_E, np.ndarray):
@@ -775,6 +788,7 @@ def eccentric_to_mean(E, e, degrees=False):
         _E = np.radians(E)
     else:
         _E = E
+    _E, e = _real(_E), _real(e)
 
     if isinstance(_E, np.ndarray) or isinstance(e, np.ndarray):
         if not isinstance(_E, np.ndarray):
@@ -1222,6 +1236,7 @@ def kepler_guess(M, e):
         equation. II,” Celestial Mechanics, vol. 31, pp. 317–328, Nov. 1983,
         doi: 10.1007/BF01844230.
     '''
+    M, e = _real(M), _real(e)
 
     if isinstance(M, np.ndarray) or isinstance(e, np.ndarray):
         if not isinstance(M, np.ndarray):
@@ -1298,6 +1313,7 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
         _M = np.radians(M)
     else:
         _M = M
+    _M, e = _real(_M), _real(e)
 
     if isinstance(_M, np.ndarray) or isinstance(e, np.ndarray):
         if not isinstance(_M, np.ndarray):
@@ -1735,7 +1751,7 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
             along axis 0: input shape is {kep.shape}')
 
     # work on a copy: the callers array must not be changed
-    kep = kep.copy()
+    kep = _real(kep.copy())
 
     if len(kep.shape) < 2:
         input_is_vector = True
-- 
2.43.0


From 83372dd3d9a76981f870ed573286c94f2079d6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:05 +0000
Subject: [PATCH 27/33] fix: starting guesses of empty arrays

---
 pyorb/kepler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index f9fc0b4..0192657 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1247,6 +1247,8 @@ def kepler_guess(M, e):
             raise TypeError('Input dimensions does not agree')
 
         E0 = np.empty(M.shape, dtype=M.dtype)
+        if M.size == 0:
+            return E0
 
         out_it = E0.size
         Mit = np.nditer(M, order='C')
-- 
2.43.0


From 38e18640f7efd06595d8d73d4260cc9e1cf137b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:05 +0000
Subject: [PATCH 28/33] fix: anomalies and Stumpff functions of unknown values
 were uninitialised memory

---
 pyorb/kepler.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 0192657..4ecb8f2 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -678,7 +678,7 @@ def true_to_eccentric(nu, e, degrees=False):
         if _nu.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        E = np.empty(_nu.shape, dtype=_nu.dtype)
+        E = np.full(_nu.shape, np.nan, dtype=_nu.dtype)
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -738,7 +738,7 @@ def eccentric_to_true(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        nu = np.empty(_E.shape, dtype=_E.dtype)
+        nu = np.full(_E.shape, np.nan, dtype=_E.dtype)
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -798,7 +798,7 @@ def eccentric_to_mean(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        M = np.empty(_E.shape, dtype=_E.dtype)
+        M = np.full(_E.shape, np.nan, dtype=_E.dtype)
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -1516,7 +1516,7 @@ def stumpff0(x):
 
     '''
     x = np.asarray(x, dtype=np.float64)
-    c0 = np.empty_like(x)
+    c0 = np.full_like(x, np.nan)
     inds = x > 0
     c0[inds] = np.cos(np.sqrt(x[inds]))
 
@@ -1545,7 +1545,7 @@ def stumpff1(x):
 
     '''
     x = np.asarray(x, dtype=np.float64)
-    c1 = np.empty_like(x)
+    c1 = np.full_like(x, np.nan)
     inds = x > 0
     c1[inds] = np.sin(np.sqrt(x[inds]))/np.sqrt(x[inds])
 
@@ -1574,7 +1574,7 @@ def stumpff2(x):
 
     '''
     x = np.asarray(x, dtype=np.float64)
-    c2 = np.empty_like(x)
+    c2 = np.full_like(x, np.nan)
     inds = x > 0
     c2[inds] = (1 - np.cos(np.sqrt(x[inds])))/x[inds]
 
@@ -1603,7 +1603,7 @@ def stumpff3(x):
 
     '''
     x = np.asarray(x, dtype=np.float64)
-    c3 = np.empty_like(x)
+    c3 = np.full_like(x, np.nan)
     inds = x > 0
     xsq = np.sqrt(x[inds])
     c3[inds] = (xsq - np.sin(xsq))/(xsq*x[inds])
-- 
2.43.0


From cd6f51cb0d408bb9da59f0856ff74831aa27000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:40 +0000
Subject: [PATCH 29/33] fix: states and equinoctial elements with unknown
 components got made-up angles

---
 pyorb/kepler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 4ecb8f2..0c8f719 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -338,6 +338,10 @@ def equi_to_kep(equi, degrees=False):
 
     kep[K_nu, eg] = equi[E_lam, eg] - om_bar[eg]  # nu
     kep[K_nu, el] = equi[E_lam, el] - kep[K_OM, el]  # nu
+    # an unknown eccentricity is no circular orbit
+    unknown = np.isnan(kep[K_e, ...])
+    kep[K_om, unknown] = np.nan
+    kep[K_nu, unknown] = np.nan
     # elements in [0, 2pi or 360]
     kep[K_om:, ...] = np.mod(kep[K_om:, ...] + _circ, _circ)
     return kep
@@ -551,6 +555,9 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
     tmp_ind2_ = np.logical_and(tmp_ind_, r[1, :] >= 0.0)
     o[5, tmp_ind2_] = 2.0*np.pi - o[5, tmp_ind2_]
 
+    # states with unknown components are no circular or planar orbits
+    o[:, np.isnan(o[1, :])] = np.nan
+
     # # OUTPUT FORMATTING ##
     if degrees:
         o[2:, :] = np.degrees(o[2:, :])
-- 
2.43.0


From 2b62a8fb762c93debe43a5d40cfea0df9423bca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:46 +0000
Subject: [PATCH 30/33] fix: a rejected state vector kept a changed shape

---
 pyorb/kepler.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 0c8f719..6844ead 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -391,12 +391,8 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
 
     if len(cart.shape) < 2:
         input_is_vector = True
-        try:
-            cart.shape = (6, 1)
-        except ValueError as e:
-            print(f'Error {e} while trying to cast vector into single column.')
-            print(f'Input array shape: {cart.shape}')
-            raise
+        # a view: the callers array must keep its shape if this fails
+        cart = cart.reshape((6, 1))
     else:
         input_is_vector = False
 
@@ -563,7 +559,6 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
         o[2:, :] = np.degrees(o[2:, :])
 
     if input_is_vector:
-        cart.shape = (6,)
         o.shape = (6,)
 
     return o
-- 
2.43.0


From 5ed51ec05c5da549c9352703d005b1e3e542541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:30 +0000
Subject: [PATCH 31/33] fix: elements written in direct mode were derived again
 after switching to lazy updates

---
 pyorb/orbit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index fab6930..9d2a45b 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -469,6 +469,8 @@ class Orbit:
         if np.sum(do_inds) == 0:
             return
 
+        # both descriptions agree from here on
+        self.__kep_calculated[do_inds] = True
         self.__cart_calculated[do_inds] = True
         if self.type == 'true':
             kep_tmp = self._kep[:, do_inds]
@@ -498,6 +500,8 @@ class Orbit:
         if np.sum(do_inds) == 0:
             return
 
+        # both descriptions agree from here on
+        self.__cart_calculated[do_inds] = True
         self.__kep_calculated[do_inds] = True
         self._kep[:, do_inds] = functions.cart_to_kep(
             self._cart[:, do_inds],
-- 
2.43.0


From 678bdfd13554fb329636033627b862000420e5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:28 +0000
Subject: [PATCH 32/33] fix: parabolic anomalies at large negative mean anomaly
 were infinite or inaccurate

---
 pyorb/kepler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 6844ead..8e33e3c 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1346,9 +1346,9 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
                 E_calc, it_num = laguerre_solve_kepler(
                     E0, Mc, ec, **solver_options)
             elif ec == 1:
-                A = 3.0/2.0*Mc
+                A = 3.0/2.0*np.abs(Mc)
                 B = np.cbrt(A + np.sqrt(A**2 + 1))
-                E_calc = B - 1.0/B
+                E_calc = np.sign(Mc)*(B - 1.0/B)
             else:
                 E0 = _get_kepler_guess(Mc, ec)
                 E_calc, it_num = laguerre_solve_kepler(
@@ -1364,9 +1364,9 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
             E0 = _get_hyperbolic_kepler_guess(_M, e)
             E, it_num = laguerre_solve_kepler(E0, _M, e, **solver_options)
         elif e == 1:
-            A = 3.0/2.0*_M
+            A = 3.0/2.0*np.abs(_M)
             B = np.cbrt(A + np.sqrt(A**2 + 1))
-            E = B - 1.0/B
+            E = np.sign(_M)*(B - 1.0/B)
         else:
             E0 = _get_kepler_guess(_M, e)
             E, it_num = laguerre_solve_kepler(E0, _M, e, **solver_options)
-- 
2.43.0


From 53761d3ac86683605a1fbabef52529664499a3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:10 +0000
Subject: [PATCH 33/33] fix: setting the mean motion of parabolic orbits used
 the period of an ellipse

---
 pyorb/orbit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 9d2a45b..41daa54 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -885,7 +885,8 @@ class Orbit:
             norm_ = 360.0
         else:
             norm_ = np.pi*2.0
-        self.period = norm_/value
+        # Barker's equation in terms of the periapsis distance
+        self.period = norm_/(value*np.where(self.e == 1, np.sqrt(2.0), 1.0))
 
         if self.direct_update:
             self.calculate_cartesian()
-- 
2.43.0

