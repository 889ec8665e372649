From e943acd889bbde669bed6bd7b2c25dd52fd82a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:54 +0000
Subject: [PATCH 001/118] fix: supernova kicks no longer disrupt bound
 near-circular orbits by rounding

---
 posydon/binary_evol/SN/step_SN.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index a003984..eed8d67 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -1797,9 +1797,10 @@ class StepSN(object):
             # to its pre-SN orbital velocity in the companions frame. i.e. angle between Vr and X axis
             # If epre = 0, sin_psi should be 1
             # Eq from setting specific angular momentum r X Vr = sqrt(G*M*A*(1-e**2))
-            sin_psi = np.round(
+            # Note: limit it to 1, which may be exceeded by rounding errors
+            sin_psi = np.minimum(
                 np.sqrt(G * (Mtot_pre) * (1 - epre ** 2) * Apre)
-                / (rpre * Vr), 5)
+                / (rpre * Vr), 1.0)
             cos_psi = np.sqrt(1 - sin_psi ** 2)
             # Allow for -cos_psi (Vr in the -X, +Y quadrant)
             if E_ma > np.pi: cos_psi *= -1
@@ -1831,11 +1832,11 @@ class StepSN(object):
                     * rpre ** 2
                     / (G * Mtot_post * Apost))
 
-                # catch negative values, i.e. disrupted binaries
-                if 1.-x < 0.:
-                    epost = np.nan
-                else:
-                    epost = np.sqrt(1 - x)
+                # Note: x exceeds 1 only by rounding errors (unbound orbits have
+                # Apost<0, hence epost>1); the current position is always
+                # between peri- and apocenter, hence epost>=|1-rpre/Apost|
+                epost = np.maximum(np.sqrt(np.maximum(1. - x, 0.)),
+                                   np.abs(1. - rpre / Apost))
 
             # Compute COM velocity, VS, post SN
             # VS_pre in COM frame is 0. So VS_post in COM frame is
-- 
2.43.0


From 9f5147bd1a1894cb98dbc25f57009bfc6c0b4f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:54 +0000
Subject: [PATCH 002/118] fix: supernova without kick takes the mass loss of
 the exploding star for CC2

---
 posydon/binary_evol/SN/step_SN.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index eed8d67..b510aec 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -487,10 +487,14 @@ class StepSN(object):
         else:
             # no kick, but still need to unset the event after CC
             # and update orbital period/separation
+            if binary.event == "CC1":
+                CO_star, other_star = binary.star_1, binary.star_2
+            else:
+                CO_star, other_star = binary.star_2, binary.star_1
             binary.event = None
             new_separation = separation_evol_wind_loss(
-                    binary.star_1.mass, binary.star_1.mass_history[-1],
-                    binary.star_2.mass, binary.separation)
+                    CO_star.mass, CO_star.mass_history[-1],
+                    other_star.mass, binary.separation)
             new_orbital_period = orbital_period_from_separation(
                     new_separation, binary.star_1.mass, binary.star_2.mass)
 
-- 
2.43.0


From be67ad6dba804ed2947cf0237d8bd0cc475e1b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:54 +0000
Subject: [PATCH 003/118] fix: Fryer+12-delayed remnant for a CO core of
 exactly 11 Msun

---
 posydon/binary_evol/SN/step_SN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index b510aec..deaed7d 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -1370,7 +1370,7 @@ class StepSN(object):
                 b = -11.0 * a + 1.0
                 f_fb = a * m_core + b
                 m_fb = f_fb * (m_collapsing - m_proto)
-            elif m_core > 11.0:
+            elif m_core >= 11.0:
                 f_fb = 1.0
                 m_fb = f_fb * (m_collapsing - m_proto)
             m_rembar = m_proto + m_fb
-- 
2.43.0


From dfe765fec29d017b0808975225cbc915a7b6cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:58 +0000
Subject: [PATCH 004/118] fix: saturated M15 magnetic braking of the primary
 mixed rad/yr with rad/s

---
 posydon/binary_evol/DT/magnetic_braking/prescriptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
index ae1aa05..fac311a 100644
--- a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
+++ b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
@@ -183,7 +183,7 @@ def M15_braking(primary, secondary, verbose = False):
 
     if (Rossby_number_pri < 0.14):
         dOmega_mb_pri = (
-            T0_pri * (chi**2.6) * (omega1 / 2.6e-6) / MOI_1
+            T0_pri * (chi**2.6) * (omega1 / omega_sol) / MOI_1
             * np.clip((1.5 - m1) / (1.5 - 1.3), 0, 1)
         )
     else:
-- 
2.43.0


From e13bf701182a87b57c054ed31cfd31969fbf4709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:58 +0000
Subject: [PATCH 005/118] fix: CARB magnetic braking of the primary was limited
 by the mass of the secondary

---
 posydon/binary_evol/DT/magnetic_braking/prescriptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
index fac311a..0900d8d 100644
--- a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
+++ b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
@@ -372,7 +372,7 @@ def CARB_braking(primary, secondary, verbose = False):
 
     dOmega_mb_pri = (
         (2./3.) * omega1 * mdot_1 * R_alfven_pri**2 / MOI_1
-        * np.clip((1.5 - m2) / (1.5 - 1.3), 0, 1)
+        * np.clip((1.5 - m1) / (1.5 - 1.3), 0, 1)
     )
 
     return -abs(dOmega_mb_sec), -abs(dOmega_mb_pri)
-- 
2.43.0


From 0968b1ccec0e5e1277b385bb4a6a5e84d756f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:58 +0000
Subject: [PATCH 006/118] fix: CARB Alfven radius converts the fourth power of
 Gauss to solar units

---
 posydon/binary_evol/DT/magnetic_braking/prescriptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
index 0900d8d..d1b5fff 100644
--- a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
+++ b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
@@ -349,7 +349,7 @@ def CARB_braking(primary, secondary, verbose = False):
         R_alfven_div_R3_sec = (
             R2**4 * rot_ratio_sec**4 * tau_ratio_sec**4
             / (mdot_2**2 * v_mod2_sec)
-            * (const.rsol**2 * const.secyer / const.msol**2))
+            * (const.rsol**2 * const.secyer**4 / const.msol**2))
     else:
         R_alfven_div_R3_sec = 0.0
 
@@ -357,7 +357,7 @@ def CARB_braking(primary, secondary, verbose = False):
         R_alfven_div_R3_pri = (
             R1**4 * rot_ratio_pri**4 * tau_ratio_pri**4
             / (mdot_1**2 * v_mod2_pri)
-            * (const.rsol**2 * const.secyer / const.msol**2))
+            * (const.rsol**2 * const.secyer**4 / const.msol**2))
     else:
         R_alfven_div_R3_pri = 0.0
 
-- 
2.43.0


From 74ca71f2debea141b30ac4872e5c32a0af13af08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:58 +0000
Subject: [PATCH 007/118] fix: e^4 term of the 3.5PN orbital decay depends on
 the mass ratio

---
 .../binary_evol/DT/gravitational_radiation/default_gravrad.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py b/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py
index 2008332..47ab629 100644
--- a/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py
+++ b/posydon/binary_evol/DT/gravitational_radiation/default_gravrad.py
@@ -52,7 +52,7 @@ def default_gravrad(a, e, primary, secondary, verbose = False):
         - (1 / 28 * const.standard_cgrav * (m1 + m2) * const.msol
         / (a * const.rsol * const.clight ** 2))
         * ((14008 + 4707 * v)+(80124 + 21560 * v) * e ** 2
-        + (17325 + 10458) * e ** 4 - 0.5 * (5501 - 1036 * v) * e ** 6))
+        + (17325 + 10458 * v) * e ** 4 - 0.5 * (5501 - 1036 * v) * e ** 6))
         ) * const.secyer / const.rsol
     # eq. (35) of Junker et al. 1992, 254, 146
 
-- 
2.43.0


From eb6a5c7b5c0c40f8e95c62dd23ea3e63c1155c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:58 +0000
Subject: [PATCH 008/118] fix: detached step recorded its final time twice in
 the histories

---
 posydon/binary_evol/DT/step_detached.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 73907fd..682056e 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -727,7 +727,7 @@ class detached_step:
                 # such that history has more than one entry.
                 # Otherwise, this is updated later in BinaryStar.run_step()
                 if len(history) > 1:
-                    getattr(obj, key + "_history").extend(history)
+                    getattr(obj, key + "_history").extend(history[:-1])
 
     def update_co_stars(self, t, primary, secondary):
 
@@ -771,7 +771,7 @@ class detached_step:
                 current = history[-1]
                 setattr(obj, key, current)
                 if len(history) > 1:
-                    getattr(obj, key + "_history").extend(history)
+                    getattr(obj, key + "_history").extend(history[:-1])
 
 class detached_evolution:
     """
-- 
2.43.0


From b7ebf099ff9ed0b8aca228f1eaf714a198e81a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:58 +0000
Subject: [PATCH 009/118] fix: detached step with dt set ran past the end of
 the step or failed on short steps

---
 posydon/binary_evol/DT/step_detached.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 682056e..0e3ac95 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -552,15 +552,12 @@ class detached_step:
         """
 
         if self.dt is not None and self.dt > 0:
-            t = np.arange(binary.time, self.res.t[-1] + self.dt/2.0, self.dt)[1:]
-            if t[-1] < self.res.t[-1]:
-                t = np.hstack([t, self.res.t[-1]])
+            t = np.arange(binary.time, self.res.t[-1], self.dt)[1:]
+            t = np.hstack([t[t < self.res.t[-1]], self.res.t[-1]])
         elif (self.n_o_steps_history is not None
                 and self.n_o_steps_history > 0):
-            t_step = (self.res.t[-1] - binary.time) / self.n_o_steps_history
-            t = np.arange(binary.time, self.res.t[-1] + t_step / 2.0, t_step)[1:]
-            if t[-1] < self.res.t[-1]:
-                t = np.hstack([t, self.res.t[-1]])
+            t = np.linspace(binary.time, self.res.t[-1],
+                            self.n_o_steps_history + 1)[1:]
         else:  # self.dt is None and self.n_o_steps_history is None
             t = np.array([self.res.t[-1]])
 
-- 
2.43.0


From 90e1ac5f9b24f71251585c6fb522323c7d221a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:25 +0000
Subject: [PATCH 010/118] fix: detached step integrated past the end of the
 tracks and missed Roche-lobe overflow

---
 posydon/binary_evol/DT/step_detached.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 0e3ac95..53f087b 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -497,12 +497,20 @@ class detached_step:
             of the stars evolution through the detached step.
 
         """
+        # do not integrate beyond the end of the tracks: the stellar radii are
+        # unknown there and a Roche-lobe overflow before it would be missed
+        t_tracks = min(secondary.t_max + secondary.t_offset,
+                       primary.t_max + primary.t_offset)
+        t_end = self.max_time
+        if t_tracks > binary.time:
+            t_end = min(t_end, t_tracks + 1e-6 * (t_tracks - binary.time))
+
         try:
             res = solve_ivp(self.evo,
                             events=[self.evo.ev_rlo1, self.evo.ev_rlo2,
                                     self.evo.ev_max_time1, self.evo.ev_max_time2],
                             method="Radau",
-                            t_span=(binary.time, self.max_time),
+                            t_span=(binary.time, t_end),
                             y0=[binary.separation, binary.eccentricity,
                                 secondary.omega0, primary.omega0],
                             dense_output=True)
@@ -513,7 +521,7 @@ class detached_step:
                             events=[self.evo.ev_rlo1, self.evo.ev_rlo2,
                                     self.evo.ev_max_time1, self.evo.ev_max_time2],
                             method="RK45",
-                            t_span=(binary.time, self.max_time),
+                            t_span=(binary.time, t_end),
                             y0=[binary.separation, binary.eccentricity,
                                 secondary.omega0, primary.omega0],
                             dense_output=True)
-- 
2.43.0


From 0d3a544a99afae3c98cd020372832f3d7953e2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:19 +0000
Subject: [PATCH 011/118] fix: collapse of one star failed when its evolved
 companion was not at the end of its life

---
 posydon/binary_evol/DT/step_detached.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 53f087b..f8abbe7 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -447,11 +447,11 @@ class detached_step:
                             self.track_matcher.get_star_final_values(primary)
                             self.track_matcher.get_star_profile(primary)
 
-                        if primary.mass != secondary.mass:
-                            raise POSYDONError(
-                                "Both stars are found to be ready for collapse "
-                                "(i.e. end of their life) during the detached "
-                                "step, but do not have the same mass")
+                            if primary.mass != secondary.mass:
+                                raise POSYDONError(
+                                    "Both stars are found to be ready for collapse "
+                                    "(i.e. end of their life) during the detached "
+                                    "step, but do not have the same mass")
 
                 elif self.res.t_events[3]:
                     # reached t_max of track. End of life (possible collapse) of primary
-- 
2.43.0


From 1d1c84b528df154d18904f0c55a3641465348201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:23 +0000
Subject: [PATCH 012/118] fix: inspiral of very eccentric double compact
 objects snapped to its initial orbit

---
 posydon/binary_evol/DT/double_CO.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/posydon/binary_evol/DT/double_CO.py b/posydon/binary_evol/DT/double_CO.py
index 780635e..eb41459 100644
--- a/posydon/binary_evol/DT/double_CO.py
+++ b/posydon/binary_evol/DT/double_CO.py
@@ -75,14 +75,15 @@ class _SBrentqDenseOutput:
 
         # An absolute tolerance for floating-point comparisons
         # based on machine floating-point precision, scaled
-        # to |tau_hi|, |tau_lo|, or 1.0, whichever is largest.
-        # (At least 1.0 scale so the tolerance does not become
-        #  unreasonably small.)
-        tau_scale = max(1.0, abs(tau_lo), abs(tau_hi))
+        # to |tau_hi| or |tau_lo|, whichever is largest, plus
+        # the resolution of the physical times (tau_hi is tiny
+        # for very eccentric orbits).
+        tau_scale = max(abs(tau_lo), abs(tau_hi))
+        t_res = np.spacing(max(abs(self.t0_phys), np.max(np.abs(t_phys))))
         # Treat endpoint residuals smaller than eps as zero to guard
         # against floating-point roundoff near the integration endpoints.
         tol = 1e4
-        eps = tol * np.finfo(float).eps * tau_scale
+        eps = tol * np.finfo(float).eps * tau_scale + 4 * t_res / self.t_scale
 
         for i, tau in enumerate(tau_target):
 
@@ -90,12 +91,12 @@ class _SBrentqDenseOutput:
             fa = tau_lo - tau
             fb = tau_hi - tau
 
-            # check lower endpoint
-            if abs(fa) <= eps:
-                s_star = self.s_lo
             # check upper endpoint
-            elif abs(fb) <= eps:
+            if abs(fb) <= eps:
                 s_star = self.s_hi
+            # check lower endpoint
+            elif abs(fa) <= eps:
+                s_star = self.s_lo
             elif fa * fb > 0:
                 raise ValueError(f"Requested tau={tau:.17e} outside interval "
                                  f"[{tau_lo:.17e}, {tau_hi:.17e}].")
@@ -213,7 +214,8 @@ class DoubleCO(detached_step):
                             y0=[l0, 0.0,
                                 secondary.omega0, primary.omega0],
                             rtol=1e-10,
-                            atol=1e-10,
+                            atol=[1e-10, 1e-10 * (1.0 - e0**2)**3.5,
+                                  1e-10, 1e-10],
                             dense_output=True)
         except Exception as exc:
             set_binary_to_failed(binary)
-- 
2.43.0


From 1702197e68317724b085c248b84e5234ee5e129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:39 +0000
Subject: [PATCH 013/118] fix: BinaryStar.reset kept none of the simulation
 properties it was given

---
 posydon/binary_evol/binarystar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index d89f12d..d01e776 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -395,7 +395,7 @@ class BinaryStar:
         """
         # If provided, update the simulation properties class
         if properties is not None:
-            self.properties = SimulationProperties(properties)
+            self.properties = properties
 
         # Use the restore function to move the binary back to its initial state
         self.restore(i=0)
-- 
2.43.0


From e7b717a94821d6653bcb50bbdcc233463b4a3fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:39 +0000
Subject: [PATCH 014/118] fix: orbital period of a binary loaded with its
 separation only

---
 posydon/binary_evol/binarystar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index d01e776..34da6e4 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -681,9 +681,9 @@ class BinaryStar:
             setattr(binary, 'separation_history', list(separation))
             setattr(binary, 'separation', list(separation)[-1])
         if ('orbital_period_history' not in bp_keys
-                and 'seperation_history' in bp_keys):
+                and 'separation_history' in bp_keys):
             period = orbital_period_from_separation(
-                            np.array(binary.seperation_history),
+                            np.array(binary.separation_history),
                             np.array(binary.star_1.mass_history),
                             np.array(binary.star_2.mass_history),)
             setattr(binary, 'orbital_period_history', list(period))
@@ -909,9 +909,9 @@ class BinaryStar:
             setattr(binary, 'separation_history', list(separation))
             setattr(binary, 'separation', list(separation)[-1])
         if ('orbital_period_history' not in bp_keys
-                and 'seperation_history' in bp_keys):
+                and 'separation_history' in bp_keys):
             period = orbital_period_from_separation(
-                            np.array(binary.seperation_history),
+                            np.array(binary.separation_history),
                             np.array(binary.star_1.mass_history),
                             np.array(binary.star_2.mass_history),)
             setattr(binary, 'orbital_period_history', list(period))
-- 
2.43.0


From 02f29e4168359102288c695161a1eccdda318d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:39 +0000
Subject: [PATCH 015/118] fix: restored binary remembered the supernova it has
 not had yet

---
 posydon/binary_evol/binarystar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 34da6e4..e44656a 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -371,6 +371,11 @@ class BinaryStar:
             ## delete the binary history after the i-th index
             setattr(self, p + '_history', getattr(self, p + '_history')[0:i+1])
 
+        ## a supernova of the discarded history has not occurred yet
+        if not any(event in ('CC1', 'CC2') for event in self.event_history[:-1]):
+            self.first_SN_already_occurred = getattr(
+                self, 'first_SN_already_occurred_history', [False])[0]
+
         ## if running with extra hooks, restore any extra hook columns
         for hook in self.properties.all_hooks_classes:
 
-- 
2.43.0


From 733b3eb9b08fe500817f9e578bb9c0c4f998635b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:17 +0000
Subject: [PATCH 016/118] fix: binaries loaded from a data frame lost their
 systemic velocity and a None event

---
 posydon/binary_evol/binarystar.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index e44656a..ca44fa4 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -130,6 +130,32 @@ def signal_handler(signum, frame):
 signal.signal(signal.SIGALRM, signal_handler)
 
 
+def _undo_df_columns(binary_params, ending):
+    """Bring the parameters read from a data frame back to the form they have in a BinaryStar.
+
+    Data frames keep vectors as one column per component and have no None.
+
+    Parameters
+    ----------
+    binary_params : dict
+        Histories of the binary properties by their name; changed in place.
+    ending : str
+        Ending of the keys of columns, which are no BINARYPROPERTIES.
+
+    """
+    for name, component in [('V_sys', 'V_sys_'),
+                            ('nearest_neighbour_distance', 'NN_dist_')]:
+        keys = [component + axis + ending for axis in 'xyz']
+        if all(key in binary_params for key in keys):
+            binary_params[name + '_history'] = [
+                np.array(vector) for vector in zip(*[binary_params.pop(key)
+                                                     for key in keys])]
+    if 'event_history' in binary_params:
+        binary_params['event_history'] = [
+            None if pd.isna(event) else event
+            for event in binary_params['event_history']]
+
+
 class BinaryStar:
     """A class containing the state and history of a stellar binary."""
 
@@ -657,6 +683,8 @@ class BinaryStar:
         assert len(set(hist_lengths)) == 1
         history_length = set(hist_lengths).pop()
 
+        _undo_df_columns(binary_params, ending='_history')
+
         if ('binary_index' in dataframe.index.name
                 and not kwargs.get('index', False)):
             binary_index = set(dataframe.index).pop()
@@ -864,6 +892,8 @@ class BinaryStar:
         assert len(set(hist_lengths)) == 1
         history_length = set(hist_lengths).pop()
 
+        _undo_df_columns(binary_params, ending='')
+
         # Handle backward compatibility for natal_kick_array
         if any(['S1_natal_kick_array' in name for name in oneline_df.columns]):
             natalkick_names = ['S1_natal_kick_array_{}'.format(i)
-- 
2.43.0


From 1ed01e704120438be56726a410ff55c6378b123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:28 +0000
Subject: [PATCH 017/118] fix: star properties with "_i" in their name were
 lost from a oneline data frame

---
 posydon/binary_evol/binarystar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index ca44fa4..a958ba9 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -857,7 +857,7 @@ class BinaryStar:
         for name in list(oneline_df.columns):
             if '_f' in name[-2:]:
                 continue    # ignore final values
-            param_name = name.split('_i')[0]
+            param_name = name[:-2] if name.endswith('_i') else name
 
             special_cases = ['natal_kick_array']
             if any([i in param_name for i in special_cases]):
-- 
2.43.0


From 1e13d790807f1961aa0babc9b6065aa01e79d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:28 +0000
Subject: [PATCH 018/118] fix: binaries with natal_kick_array could not be
 loaded from a oneline data frame

---
 posydon/binary_evol/binarystar.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index a958ba9..5ec0191 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -900,20 +900,20 @@ class BinaryStar:
                                for i in range(4)]
             natal_kick_values = oneline_df[natalkick_names].values[0]
             # Set individual natal kick properties
-            star1_params['natal_kick_velocity'] = natal_kick_values[0]
-            star1_params['natal_kick_azimuthal_angle'] = natal_kick_values[1]
-            star1_params['natal_kick_polar_angle'] = natal_kick_values[2]
-            star1_params['natal_kick_mean_anomaly'] = natal_kick_values[3]
+            star1_params['natal_kick_velocity'] = [natal_kick_values[0]]
+            star1_params['natal_kick_azimuthal_angle'] = [natal_kick_values[1]]
+            star1_params['natal_kick_polar_angle'] = [natal_kick_values[2]]
+            star1_params['natal_kick_mean_anomaly'] = [natal_kick_values[3]]
 
         if any(['S2_natal_kick_array' in name for name in oneline_df.columns]):
             natalkick_names = ['S2_natal_kick_array_{}'.format(i)
                                for i in range(4)]
             natal_kick_values = oneline_df[natalkick_names].values[0]
             # Set individual natal kick properties
-            star2_params['natal_kick_velocity'] = natal_kick_values[0]
-            star2_params['natal_kick_azimuthal_angle'] = natal_kick_values[1]
-            star2_params['natal_kick_polar_angle'] = natal_kick_values[2]
-            star2_params['natal_kick_mean_anomaly'] = natal_kick_values[3]
+            star2_params['natal_kick_velocity'] = [natal_kick_values[0]]
+            star2_params['natal_kick_azimuthal_angle'] = [natal_kick_values[1]]
+            star2_params['natal_kick_polar_angle'] = [natal_kick_values[2]]
+            star2_params['natal_kick_mean_anomaly'] = [natal_kick_values[3]]
 
         if ('binary_index' in oneline_df.index.name
                 and not kwargs.get('index', None)):
-- 
2.43.0


From 043f4a8ec964f579b39acdd3484baeeabed1fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:53 +0000
Subject: [PATCH 019/118] fix: converting to a data frame padded the histories
 of the binary itself

---
 posydon/binary_evol/binarystar.py | 2 +-
 posydon/binary_evol/singlestar.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 5ec0191..3a50050 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -546,7 +546,7 @@ class BinaryStar:
                             + extra_columns)
 
         try:
-            data_to_save = [getattr(self, key) for key in keys_to_save[1:]]
+            data_to_save = [list(getattr(self, key)) for key in keys_to_save[1:]]
             col_lengths = [len(x) for x in data_to_save]
             max_col_length = np.max(col_lengths)
 
diff --git a/posydon/binary_evol/singlestar.py b/posydon/binary_evol/singlestar.py
index 9c84997..6ecf7ce 100644
--- a/posydon/binary_evol/singlestar.py
+++ b/posydon/binary_evol/singlestar.py
@@ -475,7 +475,7 @@ class SingleStar:
                             + extra_columns)
         try:
             # shape of data_to_save (history columns , time steps)
-            data_to_save = [getattr(self, key) for key in keys_to_save]
+            data_to_save = [list(getattr(self, key)) for key in keys_to_save]
 
 
             col_lengths = [len(x) for x in data_to_save]
-- 
2.43.0


From eda3518fbc0bcf9f5dd019e808d40dc87ea04328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:51 +0000
Subject: [PATCH 020/118] fix: batch files which could not be combined were
 deleted

---
 posydon/popsyn/binarypopulation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index e3a4600..d5b2f56 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -557,6 +557,7 @@ class BinaryPopulation:
             simulated_mass_binaries = 0.0
             number_of_systems=0
 
+            not_combined = []
             for f in file_names:
                 # strings itemsize set by first append max value,
                 # which may not be largest string
@@ -588,6 +589,7 @@ class BinaryPopulation:
 
                 except Exception:
                     print(traceback.format_exc(), flush=True)
+                    not_combined.append(f)
 
             # store population metadata
             tmp_df = pd.DataFrame()
@@ -609,7 +611,11 @@ class BinaryPopulation:
 
         # only remove the files once they've been written to the new file
         for f in file_names:
-            os.remove(f)
+            if f in not_combined:
+                Pwarn(f"{f} could not be combined, hence it is kept.",
+                      "IncompletenessWarning")
+            else:
+                os.remove(f)
 
     def close(self):
         """Close loaded h5 files from SimulationProperties."""
-- 
2.43.0


From a5d72067b359b3a27052ac3fe8a1f4dcf8cfaebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:39 +0000
Subject: [PATCH 021/118] fix: loading steps altered their configuration and
 passed a metallicity on to other steps

---
 posydon/binary_evol/simulationproperties.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/posydon/binary_evol/simulationproperties.py b/posydon/binary_evol/simulationproperties.py
index c06675e..1e44e30 100644
--- a/posydon/binary_evol/simulationproperties.py
+++ b/posydon/binary_evol/simulationproperties.py
@@ -374,8 +374,8 @@ class SimulationProperties:
         for name, tup in self.kwargs.items():
             if isinstance(tup, tuple):
                 step_kwargs = tup[1]
-                metallicity = step_kwargs.get('metallicity', metallicity)
-                self.load_a_step(name, tup, metallicity=metallicity, RNG=RNG, verbose=verbose)
+                step_metallicity = step_kwargs.get('metallicity', metallicity)
+                self.load_a_step(name, tup, metallicity=step_metallicity, RNG=RNG, verbose=verbose)
 
         if verbose:
             if self.steps_loaded:
@@ -520,7 +520,8 @@ class SimulationProperties:
         # copy these to track what was originally passed before adding defaults
         # in case we need to update a TrackMatcher for a step, this method only
         # cares about updating what it is told to, not everything.
-        original_step_kwargs = step_kwargs.copy()
+        original_step_kwargs = step_kwargs
+        step_kwargs = step_kwargs.copy()
 
         # check/assign metallicity for the step
         if "metallicity" in step_func.DEFAULT_KWARGS:
-- 
2.43.0


From a5a0711264b9f8b6b2a677dfc1e24bbdaf66862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:09 +0000
Subject: [PATCH 022/118] fix: hooks of the ini file without all their options
 were dropped

---
 posydon/popsyn/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/io.py b/posydon/popsyn/io.py
index 810b6cc..8ef2d23 100644
--- a/posydon/popsyn/io.py
+++ b/posydon/popsyn/io.py
@@ -474,7 +474,7 @@ def simprop_kwargs_from_ini(path, only=None, verbose=False):
             # do not take extra_pre_step options etc.
 
             # loop to try and find all hooks classes
-            for h in range(1, len(names)):
+            for h in sorted({int(name.split('_')[-1]) for name in names}):
                 valid_names = [name for name in names
                                if int(name.split('_')[-1]) == h]
 
-- 
2.43.0


From 2d06d7c06583bb88b71c6681e65ad776363f3033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:09 +0000
Subject: [PATCH 023/118] fix: absolute_import of a hook in the ini file was
 ignored

---
 posydon/popsyn/io.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/posydon/popsyn/io.py b/posydon/popsyn/io.py
index 8ef2d23..ae32240 100644
--- a/posydon/popsyn/io.py
+++ b/posydon/popsyn/io.py
@@ -483,12 +483,22 @@ def simprop_kwargs_from_ini(path, only=None, verbose=False):
                     continue
 
                 import_and_name = sect_dict.pop('import_{}'.format(h))
-                package = sect_dict.pop('absolute_import_{}'.format(h), None)
+                absolute_import_and_name = sect_dict.pop(
+                    'absolute_import_{}'.format(h), None)
                 class_kwargs = sect_dict.pop('kwargs_{}'.format(h), dict())
 
-                module = importlib.import_module(import_and_name[0],
-                                                 package=package)
-                cls = getattr(module, import_and_name[1])
+                if absolute_import_and_name is not None:
+                    import_location, class_name = absolute_import_and_name
+                    location = os.path.abspath(import_location)
+                    spec = importlib.util.spec_from_file_location(
+                        location[1:].replace('/', '.').replace('.py', ''),
+                        location=location)
+                    module = importlib.util.module_from_spec(spec)
+                    spec.loader.exec_module(module)
+                else:
+                    import_location, class_name = import_and_name
+                    module = importlib.import_module(import_location)
+                cls = getattr(module, class_name)
 
                 hooks_list.append((cls, class_kwargs))
 
-- 
2.43.0


From 1a8a000e132048246bfa27665d1cd4f6d97faf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:53 +0000
Subject: [PATCH 024/118] fix: Sana12 periods could not be drawn from ranges
 beyond 1.4 days

---
 posydon/popsyn/distributions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/distributions.py b/posydon/popsyn/distributions.py
index 67a9f64..f976954 100644
--- a/posydon/popsyn/distributions.py
+++ b/posydon/popsyn/distributions.py
@@ -419,8 +419,11 @@ class Sana12Period():
 
         mask2 = m1 > self.mbreak
         beta = 1 - self.slope
-        A = np.log10(10**0.15)**(-self.slope) * (np.log10(10**0.15) - np.log10(self.p_min))
-        B = 1./beta * (np.log10(self.p_max)**beta - np.log10(10**0.15)**beta)
+        logp_min, logp_max = np.log10(self.p_min), np.log10(self.p_max)
+        # the flat part ends and the power law starts at the break, unless
+        # the period range lies on one side of it
+        A = 0.15**(-self.slope) * (np.clip(0.15, logp_min, logp_max) - logp_min)
+        B = 1./beta * (max(logp_max, 0.15)**beta - max(logp_min, 0.15)**beta)
         C = 1./(A + B)
         logp_valid = logp[mask2]
 
-- 
2.43.0


From 44f0d3758a894967d49fd828ff73a59c74057220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:53 +0000
Subject: [PATCH 025/118] fix: Kroupa2001 and Chabrier2003 samples of low-mass
 stars did not follow the IMF

---
 posydon/popsyn/IMFs.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/IMFs.py b/posydon/popsyn/IMFs.py
index bfaace0..093f37e 100644
--- a/posydon/popsyn/IMFs.py
+++ b/posydon/popsyn/IMFs.py
@@ -66,6 +66,24 @@ class IMFBase(ABC):
                 "Normalization integral is zero. Check IMF parameters.")
         return 1.0 / integral
 
+    def _sampling_grid(self, n_points):
+        """Grid of masses which resolves the low-mass end of the IMF.
+
+        Parameters
+        ----------
+        n_points : int
+            Number of grid points.
+
+        Returns
+        -------
+        ndarray
+            Masses from m_min to m_max, linearly spaced if this is fine enough
+            at m_min, logarithmically otherwise.
+        """
+        if self.m_max - self.m_min < 0.01 * self.m_min * n_points:
+            return np.linspace(self.m_min, self.m_max, n_points)
+        return np.geomspace(self.m_min, self.m_max, n_points)
+
     def pdf(self, m):
         """Compute the probability density function (PDF) values
         for the input mass(es).
@@ -436,7 +454,7 @@ class Kroupa2001(IMFBase):
         # Create discretized PDF for inverse sampling
         # Use more points near the breaks for better accuracy
         n_points = 2000
-        m_grid = np.linspace(self.m_min, self.m_max, n_points)
+        m_grid = self._sampling_grid(n_points)
         pdf_values = self.imf(m_grid)
 
         # Sample using inverse transform method
@@ -557,7 +575,7 @@ class Chabrier2003(IMFBase):
         # Create discretized PDF for inverse sampling
         # Use more points near the transition for better accuracy
         n_points = 2000
-        m_grid = np.linspace(self.m_min, self.m_max, n_points)
+        m_grid = self._sampling_grid(n_points)
         pdf_values = self.imf(m_grid)
 
         # Sample using inverse transform method
-- 
2.43.0


From 773064e43d0bd2e769fd5c3253d9e8fdca5bb324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:53 +0000
Subject: [PATCH 026/118] fix: single stars of a population with equal masses
 lost their mass

---
 posydon/popsyn/independent_sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/independent_sample.py b/posydon/popsyn/independent_sample.py
index 16dd4f1..21f36e1 100644
--- a/posydon/popsyn/independent_sample.py
+++ b/posydon/popsyn/independent_sample.py
@@ -371,7 +371,7 @@ def generate_secondary_masses(primary_masses,
         secondary_masses = primary_masses * mass_ratios
 
     if secondary_mass_scheme == 'q=1':
-        secondary_masses = primary_masses
+        secondary_masses = np.array(primary_masses)
 
     return secondary_masses
 
-- 
2.43.0


From 09d478a69a82112f278040b46ce75217c451cbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:08 +0000
Subject: [PATCH 027/118] fix: mass ratios of a declining power law down to
 zero could not be drawn

---
 posydon/popsyn/distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/posydon/popsyn/distributions.py b/posydon/popsyn/distributions.py
index f976954..ac8259a 100644
--- a/posydon/popsyn/distributions.py
+++ b/posydon/popsyn/distributions.py
@@ -288,6 +288,10 @@ class PowerLawMassRatio:
         if rng is None:
             rng = np.random.default_rng()
 
+        if self.alpha < 0 and self.q_min == 0:
+            # the density diverges at q=0: invert its cumulative analytically
+            return self.q_max * rng.uniform(size=size)**(1.0 / (1.0 + self.alpha))
+
         from posydon.utils.common_functions import inverse_sampler
         q_grid = np.linspace(self.q_min, self.q_max, n_points)
         pdf_values = self.power_law_mass_ratio(q_grid)
-- 
2.43.0


From a1292c30b246a0dbc142439277077dfd3ac8fd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:36 +0000
Subject: [PATCH 028/118] fix: weights of a log-uniform separation population
 depended on the separation

---
 posydon/popsyn/norm_pop.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/posydon/popsyn/norm_pop.py b/posydon/popsyn/norm_pop.py
index 915a95a..d38a33f 100644
--- a/posydon/popsyn/norm_pop.py
+++ b/posydon/popsyn/norm_pop.py
@@ -201,13 +201,13 @@ def get_period_pdf(kwargs):
                 max=kwargs['orbital_separation_max'],
             )
             # Since the outer function is set in PDF(P) and inner as P(a),
-            # we need to do a change of variables.
-            # PDF(P) = PDF(a) * |da/dP|
-            # da/dP = (2/3) * (a/P)
-            # PDF(P) = (2/3) * log_uniform(log_a)
-            period_pdf = lambda P, m1, q: separation_log_uniform.pdf(
-                orbital_separation_from_period(P, m1, q*m1)
-            ) * 2./3.
+            # we need to do a change of variables. Like the period
+            # distributions, it is a density in log10(P):
+            # PDF(log P) = PDF(a) * a * dlog(a)/dlog(P)
+            # dlog(a)/dlog(P) = 2/3
+            def period_pdf(P, m1, q):
+                a = orbital_separation_from_period(P, m1, q*m1)
+                return separation_log_uniform.pdf(a) * a * 2./3.
         else:
             raise ValueError("Orbital separation scheme not recognized")
     else:
-- 
2.43.0


From a9af1e53301131741415358dc62fad416a343190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:50 +0000
Subject: [PATCH 029/118] fix: mean mass of a population missed mass ratios
 possible for some primaries only

---
 posydon/popsyn/norm_pop.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/posydon/popsyn/norm_pop.py b/posydon/popsyn/norm_pop.py
index d38a33f..7a78af8 100644
--- a/posydon/popsyn/norm_pop.py
+++ b/posydon/popsyn/norm_pop.py
@@ -305,6 +305,15 @@ def get_mean_mass(params):
     if q_min > q_max:
         raise ValueError("q_min must be less than q_max")
 
+    # integrate over the range of the mass ratio distribution
+    if params['secondary_mass_scheme'] == 'power_law_mass_ratio':
+        q_min = params.get('q_min', 0.05)
+        q_max = params.get('q_max', 1.0)
+    elif 'q_min' not in params and 'q_max' not in params:
+        # the limits depend on the primary mass
+        q_min = lambda m: np.max([params['secondary_mass_min']/m, 0])
+        q_max = lambda m: np.min([params['secondary_mass_max']/m, 1])
+
     # binary integration
     I_bin = dblquad(lambda q, m: (m + m * q) * PDF(m, q, P=0, binary=True),
                     m1_min, m1_max,
-- 
2.43.0


From 73a5eaad752876f7275c2f9e660dd9b44f72aeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:23 +0000
Subject: [PATCH 030/118] fix: boolean masks of a population history selected
 wrong rows or no columns

---
 posydon/popsyn/synthetic_population.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 9e1afb8..a7e7d5b 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -480,9 +480,12 @@ class History(DFInterface):
             # This can be optimized by only selecting indices that are True instead of the entire table
             with pd.HDFStore(self.filename, mode="r") as store:
                 iterator = store.select("history", chunksize=self.chunksize)
+                mask = np.asarray(key).flatten()
                 out = []
-                for i, chunk in enumerate(iterator):
-                    out.append(chunk[key[i : i + self.chunksize]])
+                start = 0
+                for chunk in iterator:
+                    out.append(chunk[mask[start : start + len(chunk)]])
+                    start += len(chunk)
                 return pd.concat(out, axis=0)
 
         # single column
-- 
2.43.0


From 3a0590beb901aa91bd6e7d49d872df02f4410b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:23 +0000
Subject: [PATCH 031/118] fix: open slices of a population missed systems with
 an index beyond their number

---
 posydon/popsyn/synthetic_population.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index a7e7d5b..7f72463 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -446,7 +446,7 @@ class History(DFInterface):
             else:
                 pre = key.start
             if key.stop is None:
-                chunk = self.number_of_systems
+                chunk = max(self.indices, default=-1) + 1 - pre
             else:
                 chunk = key.stop - pre
             indices = list(range(pre, pre + chunk))
@@ -694,7 +694,7 @@ class Oneline(DFInterface):
             else:
                 pre = key.start
             if key.stop is None:
-                chunk = self.number_of_systems
+                chunk = max(self.indices, default=-1) + 1 - pre
             else:
                 chunk = key.stop - pre
             indices = list(range(pre, pre + chunk))
-- 
2.43.0


From b94e9886806110844f2d4c4ae5b5bdf901d6c48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:23 +0000
Subject: [PATCH 032/118] fix: history lengths were not in the order of the
 systems in the file

---
 posydon/popsyn/synthetic_population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 7f72463..b96afab 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -383,7 +383,7 @@ class History(DFInterface):
                     )
                 history_events = store.select_column("history", "index")
                 tmp_df = pd.DataFrame(
-                    history_events.groupby(history_events).count(),
+                    history_events.groupby(history_events, sort=False).count(),
                 )
                 tmp_df.rename(columns={"index": "length"}, inplace=True)
                 self.lengths = tmp_df
-- 
2.43.0


From 73f15109c9c2729c0385595d5936a8bfe2707898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:23 +0000
Subject: [PATCH 033/118] fix: tables of an exported unsorted selection were
 not in the same order

---
 posydon/popsyn/synthetic_population.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index b96afab..1c91ef3 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1304,7 +1304,7 @@ class Population(PopulationIO):
                 disable=not self.verbose,
             ):
 
-                tmp_df = self.oneline[selection[i : i + self.chunksize]]
+                tmp_df = self.oneline[selection[i : i + self.chunksize]].loc[selection[i : i + self.chunksize]]
                 if "metallicity" in tmp_df.columns:
                     tmp_df["metallicity"] = tmp_df["metallicity"].astype("float")
                 else:
@@ -1327,7 +1327,7 @@ class Population(PopulationIO):
                 total=len(selection) // history_chunksize,
                 disable=not self.verbose,
             ):
-                tmp_df = self.history[selection[i : i + history_chunksize]]
+                tmp_df = self.history[selection[i : i + history_chunksize]].loc[selection[i : i + history_chunksize]]
                 tmp_df.rename(index=reindex, inplace=True)
                 store.append(
                     "history",
-- 
2.43.0


From 2bd147ec2ecc6fb503a38cb1f9e3d3f0b4b97422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:23 +0000
Subject: [PATCH 034/118] fix: exported metallicity was not in solar units when
 it had to be added

---
 posydon/popsyn/synthetic_population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 1c91ef3..ea5c2cb 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1308,7 +1308,7 @@ class Population(PopulationIO):
                 if "metallicity" in tmp_df.columns:
                     tmp_df["metallicity"] = tmp_df["metallicity"].astype("float")
                 else:
-                    tmp_df["metallicity"] = self.metallicities[0]
+                    tmp_df["metallicity"] = self.solar_metallicities[0]
                 tmp_df.rename(index=reindex, inplace=True)
                 store.append(
                     "oneline",
-- 
2.43.0


From 5e5361a776164aa7af863a007fabdb6b3ad4f0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:40 +0000
Subject: [PATCH 035/118] fix: exporting a selection changed the population and
 miscounted systems per metallicity

---
 posydon/popsyn/synthetic_population.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index ea5c2cb..847ca5d 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1298,6 +1298,7 @@ class Population(PopulationIO):
                 print("Writing selected systems to population file...")
 
             # write oneline of selected systems
+            selected_per_metallicity = {}
             for i in tqdm(
                 range(0, len(selection), self.chunksize),
                 total=len(selection) // self.chunksize,
@@ -1309,6 +1310,8 @@ class Population(PopulationIO):
                     tmp_df["metallicity"] = tmp_df["metallicity"].astype("float")
                 else:
                     tmp_df["metallicity"] = self.solar_metallicities[0]
+                for Z, number in tmp_df["metallicity"].value_counts().items():
+                    selected_per_metallicity[Z] = selected_per_metallicity.get(Z, 0) + number
                 tmp_df.rename(index=reindex, inplace=True)
                 store.append(
                     "oneline",
@@ -1372,16 +1375,19 @@ class Population(PopulationIO):
                 )
 
             # write mass_per_metallicity
-            if "/mass_per_metallicity" in store.keys():
-                self_mass = self.mass_per_metallicity
+            self_mass = self.mass_per_metallicity.copy()
+            if len(self_mass) > 1:
+                self_mass["number_of_systems"] = [
+                    selected_per_metallicity.get(Z, 0) for Z in self_mass.index
+                ]
+            else:
                 self_mass["number_of_systems"] = len(selection)
+            if "/mass_per_metallicity" in store.keys():
                 tmp_df = pd.concat([store["mass_per_metallicity"], self_mass])
                 mass_per_metallicity = tmp_df.groupby(tmp_df.index).sum()
                 store.put("mass_per_metallicity", mass_per_metallicity)
 
             else:
-                self_mass = self.mass_per_metallicity
-                self_mass["number_of_systems"] = len(selection)
                 store.put("mass_per_metallicity", self_mass)
 
         # write ini parameters
-- 
2.43.0


From 5a6d4a872621a9bf2ac98771d1bd3ac4a8ff3ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:40 +0000
Subject: [PATCH 036/118] fix: model weights were swapped between systems not
 stored in the order of their index

---
 posydon/popsyn/synthetic_population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 847ca5d..956b902 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1975,7 +1975,7 @@ class TransientPopulation(Population):
                                                     M_sim=M_sim,
                                                     simulation_parameters=simulation_parameters,
                                                     population_parameters=population_parameters)
-            weight_mapping = dict(zip(met_indices, calculated_weights))
+            weight_mapping = dict(zip(pop_data.index, calculated_weights))
             model_weights[model_weights_identifier] = (
                 model_weights.index.to_series().map(weight_mapping).fillna(model_weights[model_weights_identifier]))
 
-- 
2.43.0


From 6a8fdc660d5a4b68428612be81934dbf910ba024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:40 +0000
Subject: [PATCH 037/118] fix: cosmic weights changed the default
 star-formation model

---
 posydon/popsyn/synthetic_population.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 956b902..1c6bb11 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -2091,10 +2091,10 @@ class TransientPopulation(Population):
         # Set model to DEFAULT or provided MODEL parameters
         # Allows for partial model specification
         if MODEL_in is None:
-            MODEL = DEFAULT_SFH_MODEL
+            MODEL = DEFAULT_SFH_MODEL.copy()
         else:
             # write the DEFAULT_SFH_MODEL with updated parameters to MODEL.
-            MODEL = DEFAULT_SFH_MODEL
+            MODEL = DEFAULT_SFH_MODEL.copy()
             MODEL.update(MODEL_in)
 
         path_in_file = (
-- 
2.43.0


From 601eaeef63376865b746c470671698e8677e5bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:53 +0000
Subject: [PATCH 038/118] fix: events beyond the number of systems were left
 out of cosmic weights and observable populations

---
 posydon/popsyn/synthetic_population.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 1c6bb11..66b2110 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -2133,7 +2133,6 @@ class TransientPopulation(Population):
             )
 
         get_redshift_from_cosmic_time = redshift_from_cosmic_time_interpolator()
-        indices = self.indices
 
         met_edges = rates.edges_metallicity_bins
         # sample the SFH for only the events that are within the Hubble time
@@ -2155,7 +2154,7 @@ class TransientPopulation(Population):
         deltaT = rates.MODEL["delta_t"] * 10**6  # yr
 
         for i in tqdm(
-            range(0, len(indices), self.chunksize),
+            range(0, len(M_model), self.chunksize),
             desc="event loop",
             disable=not self.verbose,
         ):
@@ -2676,10 +2675,14 @@ class Rates(TransientPopulation):
                     + observable_name
                 ]
 
+        # a system can have several events
+        with pd.HDFStore(self.filename, mode="r") as store:
+            n_events = store.get_storer(self.base_path + "weights").nrows
+
         # loop over the transient population and calculate the new weights, while writing to the file
         for i in tqdm(
-            range(0, len(self), self.chunksize),
-            total=len(self) // self.chunksize,
+            range(0, n_events, self.chunksize),
+            total=n_events // self.chunksize,
             disable=not self.verbose,
         ):
             transient_pop_chunk = self.select(start=i, stop=i + self.chunksize)
-- 
2.43.0


From 89cca33895c4ffb5dbdba422d6a31d296fdbd200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:53 +0000
Subject: [PATCH 039/118] fix: redshift bins for time steps which leave a short
 earliest bin

---
 posydon/popsyn/rate_calculation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/rate_calculation.py b/posydon/popsyn/rate_calculation.py
index de98212..46f06cf 100644
--- a/posydon/popsyn/rate_calculation.py
+++ b/posydon/popsyn/rate_calculation.py
@@ -164,7 +164,9 @@ def get_redshift_bin_edges(delta_t):
         Redshift bin edges.
 
     """
-    n_redshift_bin_centers = int(cosmology.age(0).to("Myr").value / delta_t)
+    # whole bins since the last bin edge at z=100
+    t_first = cosmology.age(100.0).value
+    n_redshift_bin_centers = int((cosmology.age(0.0).value - t_first) * 1e3 / delta_t)
     # generate t_birth at the middle of each self.delta_t bin
     t_birth_bin = [cosmology.age(0.0).value]
     for i in range(n_redshift_bin_centers + 1):
@@ -196,10 +198,15 @@ def get_redshift_bin_centers(delta_t):
     # generate t_birth at the middle of each self.delta_t bin
     t_birth_bin = [cosmology.age(0.0).value]
     t_birth = []
-    n_redshift_bin_centers = int(cosmology.age(0).to("Myr").value / delta_t)
+    # whole bins since the last bin edge at z=100
+    t_first = cosmology.age(100.0).value
+    n_redshift_bin_centers = int((cosmology.age(0.0).value - t_first) * 1e3 / delta_t)
     for i in range(n_redshift_bin_centers + 1):
         t_birth.append(t_birth_bin[i] - delta_t * 1e-3 / 2.0)  # Gyr
         t_birth_bin.append(t_birth_bin[i] - delta_t * 1e-3)  # Gyr
+    if t_birth[-1] <= t_first:
+        # the earliest bin is shorter than delta_t
+        t_birth[-1] = (t_birth_bin[-2] + t_first) / 2.0
     t_birth = np.array(t_birth)
     # compute the redshift
     z_birth = []
-- 
2.43.0


From 67229b325963173f314087e9c56cbc6598cf8ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:52 +0000
Subject: [PATCH 040/118] fix: selecting no rows of a population table failed

---
 posydon/popsyn/synthetic_population.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 66b2110..aa13613 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -285,6 +285,9 @@ class DFInterface:
             out = []
             for chunk in iterator:
                 out.append(chunk)
+            if len(out) == 0:
+                # nothing selected
+                return store.select(key, start=0, stop=0, columns=columns)
             out = pd.concat(out, axis=0)
         return out
 
-- 
2.43.0


From caaad9a0c3854f96a396a663e11d5582a08567f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:52 +0000
Subject: [PATCH 041/118] fix: formation channels of systems without any
 interpolation class failed

---
 posydon/popsyn/synthetic_population.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index aa13613..cea751e 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1506,8 +1506,8 @@ class Population(PopulationIO):
 
             mask = pd.notna(interp_class_HMS_HMS["interp_class_HMS_HMS"].values)
             interp_class_HMS_HMS.loc[mask, "interp_class_HMS_HMS"] = (
-                interp_class_HMS_HMS[mask]
-                .apply(lambda x: HMS_HMS_event_dict[x["interp_class_HMS_HMS"]], axis=1)
+                interp_class_HMS_HMS.loc[mask, "interp_class_HMS_HMS"]
+                .apply(lambda x: HMS_HMS_event_dict[x])
                 .values
             )
             del mask
-- 
2.43.0


From 83e0d7c87d161405d30a476c67a884fd0eb7041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:18 +0000
Subject: [PATCH 042/118] fix: empty slices, lists and masks of a population
 failed

---
 posydon/popsyn/synthetic_population.py | 30 ++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index cea751e..c2ed139 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -291,6 +291,24 @@ class DFInterface:
             out = pd.concat(out, axis=0)
         return out
 
+    def select_indices(self, indices):
+        """Select the rows of systems by their index.
+
+        Parameters
+        ----------
+        indices : list of int
+            Indices of the systems.
+
+        Returns
+        -------
+        pd.DataFrame
+            The rows of the systems, which is empty without indices.
+
+        """
+        if len(indices) == 0:
+            return self.select(start=0, stop=0)
+        return self.select(where=f"index in {indices}")
+
     def get_repr(self, key):
         '''Return a string representation of the key table.
 
@@ -453,7 +471,7 @@ class History(DFInterface):
             else:
                 chunk = key.stop - pre
             indices = list(range(pre, pre + chunk))
-            return self.select(where=f'index in {indices}')
+            return self.select_indices(indices)
 
         # single index
         elif isinstance(key, int):
@@ -701,23 +719,23 @@ class Oneline(DFInterface):
             else:
                 chunk = key.stop - pre
             indices = list(range(pre, pre + chunk))
-            return self.select(where=f'index in {indices}')
+            return self.select_indices(indices)
 
         elif isinstance(key, int):
             return self.select(where=f"index == {key}")
         elif isinstance(key, list) and all(isinstance(x, int) for x in key):
-            return self.select(where=f"index in {key}")
+            return self.select_indices(key)
         elif isinstance(key, np.ndarray) and (key.dtype == int):
             indices = key.tolist()
-            return self.select(where=f"index in {indices}")
+            return self.select_indices(indices)
         elif isinstance(key, list) and all(isinstance(x, float) for x in key):
             raise ValueError("elements in list are not integers! Try casting to int.")
         elif isinstance(key, pd.DataFrame) and all(key.dtypes == bool):
             indices = self.indices[key.to_numpy().flatten()].tolist()
-            return self.select(where=f"index in {indices}")
+            return self.select_indices(indices)
         elif isinstance(key, np.ndarray) and key.dtype == bool:
             indices = self.indices[key].tolist()
-            return self.select(where=f"index in {indices}")
+            return self.select_indices(indices)
         elif isinstance(key, str):
             if key in self.columns:
                 return self.select(columns=[key])
-- 
2.43.0


From c30d77170c152d106452e820d8081935d0a87f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:30 +0000
Subject: [PATCH 043/118] fix: histogram star formation gave one formation time
 for all binaries

---
 posydon/popsyn/star_formation_history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/star_formation_history.py b/posydon/popsyn/star_formation_history.py
index b962ff6..ac91a2e 100644
--- a/posydon/popsyn/star_formation_history.py
+++ b/posydon/popsyn/star_formation_history.py
@@ -1110,7 +1110,8 @@ def get_formation_times(N_binaries, star_formation="constant", **kwargs): # prag
     if scenario in ["custom_linear_histogram", "custom_log10_histogram"]:
         custom_ages_file = kwargs.get("custom_ages_file")
         x, y = read_histogram_from_file(custom_ages_file)
-        current_binary_ages = histogram_sampler(x, y, rng=RNG)
+        current_binary_ages = np.atleast_1d(
+            histogram_sampler(x, y, size=N_binaries, rng=RNG))
         if "log10" in scenario:
             current_binary_ages = 10.0**current_binary_ages
         return max_time - current_binary_ages
-- 
2.43.0


From 6dbeb2873cf305e90513d5344383833d763dc2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:48 +0000
Subject: [PATCH 044/118] fix: metallicity limits outside of the metallicity
 bins gave negative fractions or failed

---
 posydon/popsyn/star_formation_history.py | 41 +++++++++---------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/posydon/popsyn/star_formation_history.py b/posydon/popsyn/star_formation_history.py
index ac91a2e..21c1280 100644
--- a/posydon/popsyn/star_formation_history.py
+++ b/posydon/popsyn/star_formation_history.py
@@ -180,43 +180,34 @@ class SFHBase(ABC):
             raise ValueError("Metallicity bins must be sorted "
                              "in ascending order.")
 
-        fSFR = (np.array(cdf_func(metallicity_bins[1:]))
-                - np.array(cdf_func(metallicity_bins[:-1])))
+        lower = np.array(metallicity_bins[:-1], dtype=float)
+        upper = np.array(metallicity_bins[1:], dtype=float)
 
-        first_bin_index = 0
-        last_bin_index = len(fSFR) - 1
-
-        # include material outside the metallicity bounds if requested
+        # include the mass up to Z_max in the highest bin,
+        # nothing is formed above Z_max
         if self.Z_max is not None:
             if self.Z_max >= metallicity_bins[-1]:
-                fSFR[-1] = cdf_func(self.Z_max) - cdf_func(metallicity_bins[-2])
+                upper[-1] = self.Z_max
             else:
                 Pwarn('Z_max is smaller than the highest metallicity bin.',
                       'SFHModelWarning')
-                # find the index of the last bin that is smaller than Z_max
-                last_bin_index = np.searchsorted(metallicity_bins, self.Z_max) - 1
-                fSFR[last_bin_index] = cdf_func(self.Z_max) - cdf_func(metallicity_bins[last_bin_index])
-                fSFR[last_bin_index + 1:] = 0.0
+                upper = np.minimum(upper, self.Z_max)
 
+        # include the mass down to Z_min in the lowest bin,
+        # nothing is formed below Z_min
         if self.Z_min is not None:
             if self.Z_min <= metallicity_bins[0]:
-                fSFR[0] = cdf_func(metallicity_bins[1]) - cdf_func(self.Z_min)
+                lower[0] = self.Z_min
             else:
                 Pwarn('Z_min is larger than the lowest metallicity bin.',
                       'SFHModelWarning')
-                # find the index of the first bin that is larger than Z_min
-                first_bin_index = np.searchsorted(metallicity_bins, self.Z_min) -1
-                fSFR[:first_bin_index] = 0.0
-                fSFR[first_bin_index] = cdf_func(metallicity_bins[first_bin_index+1]) - cdf_func(self.Z_min)
-
-        # Check if in the same bin
-        if self.Z_max is not None and self.Z_min is not None:
-            if first_bin_index == last_bin_index:
-                fSFR[first_bin_index] = cdf_func(self.Z_max) - cdf_func(self.Z_min)
-                fSFR[first_bin_index + 1:] = 0.0
-                fSFR[:first_bin_index] = 0.0
-
-        if self.normalise:
+                lower = np.maximum(lower, self.Z_min)
+
+        # bins outside of the metallicity range do not form any stars
+        upper = np.maximum(lower, upper)
+        fSFR = np.array(cdf_func(upper)) - np.array(cdf_func(lower))
+
+        if self.normalise and np.sum(fSFR) > 0:
             fSFR /= np.sum(fSFR)
 
         return fSFR
-- 
2.43.0


From 81bb105d8ffe2cc9780edf82d1279f2957adb7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:22 +0000
Subject: [PATCH 045/118] fix: roche_lobe_radius changed the arrays passed to
 it

---
 posydon/utils/common_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index d3e0a29..e9030fd 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -256,7 +256,7 @@ def roche_lobe_radius(m1, m2, a_orb=1):
         elif np.any(a_orb < 0):
             Pwarn("Trying to compute RL radius for binary with invalid"
                   " separation", "EvolutionWarning")
-            a_orb[a_orb < 0] = np.nan
+            a_orb = np.where(a_orb < 0, np.nan, a_orb)
     ## catching if a_orb is a float with invalid separation value
     elif a_orb < 0:
         Pwarn("Trying to compute RL radius for binary with invalid separation",
@@ -272,7 +272,7 @@ def roche_lobe_radius(m1, m2, a_orb=1):
         elif np.any(m1 <= 0):
             Pwarn("Trying to compute RL radius for nonexistent object",
                   "EvolutionWarning")
-            m1[m1 <= 0] = np.nan
+            m1 = np.where(m1 <= 0, np.nan, m1)
     elif m1 <= 0:
         Pwarn("Trying to compute RL radius for nonexistent object",
               "EvolutionWarning")
@@ -287,7 +287,7 @@ def roche_lobe_radius(m1, m2, a_orb=1):
         elif np.any(m2 <= 0):
             Pwarn("Trying to compute RL radius for nonexistent companion",
                   "EvolutionWarning")
-            m2[m2 <= 0] = np.nan
+            m2 = np.where(m2 <= 0, np.nan, m2)
     elif m2 <= 0:
         Pwarn("Trying to compute RL radius for nonexistent companion",
               "EvolutionWarning")
-- 
2.43.0


From 9f2632d9027df3976615a2f8c85b079a46c441e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:22 +0000
Subject: [PATCH 046/118] fix: flipping the stars of a binary left double
 common envelopes with the wrong star

---
 posydon/utils/common_functions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index e9030fd..0aa8bed 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -1421,6 +1421,10 @@ def flip_stars(binary):
         setattr(binary, 'event', 'oCE2')
     elif event == 'oCE2':
         setattr(binary, 'event', 'oCE1')
+    if event == 'oDoubleCE1':
+        setattr(binary, 'event', 'oDoubleCE2')
+    elif event == 'oDoubleCE2':
+        setattr(binary, 'event', 'oDoubleCE1')
     if event == 'CC1':
         setattr(binary, 'event', 'CC2')
     elif event == 'CC2':
@@ -1446,6 +1450,10 @@ def flip_stars(binary):
     cond_oCE1 = event_history == 'oCE2'
     event_history[cond_oCE2] = 'oCE2'
     event_history[cond_oCE1] = 'oCE1'
+    cond_oDoubleCE2 = event_history == 'oDoubleCE1'
+    cond_oDoubleCE1 = event_history == 'oDoubleCE2'
+    event_history[cond_oDoubleCE2] = 'oDoubleCE2'
+    event_history[cond_oDoubleCE1] = 'oDoubleCE1'
     setattr(binary, 'event_history', event_history.tolist())
 
     for i in ['t_sync_rad_', 't_sync_conv_', 'rl_relative_overflow_']:
-- 
2.43.0


From f5b73fd48d6f4a38e9981dcdd260dcd28c0cbcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:33 +0000
Subject: [PATCH 047/118] fix: downsampling changed the values of integer
 tracks

---
 posydon/grids/downsampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/grids/downsampling.py b/posydon/grids/downsampling.py
index a7922b3..dfdcd2f 100644
--- a/posydon/grids/downsampling.py
+++ b/posydon/grids/downsampling.py
@@ -71,7 +71,7 @@ def rescale_from_0_to_1(array, return_minmax=False):
             Value of the maximum (only returned if return_minmax is True).
 
     """
-    arr = np.array(array)
+    arr = np.array(array, dtype=float)
     if len(arr.shape) != 2:
         raise ValueError("Scaler works for matrices only.")
 
-- 
2.43.0


From 685e8be67f0b2f2091da392f1b4dd47d87103a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:46 +0000
Subject: [PATCH 048/118] fix: double common envelope gave the companion the
 donor's core radius

---
 posydon/binary_evol/CE/step_CEE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/CE/step_CEE.py b/posydon/binary_evol/CE/step_CEE.py
index dcbcd7f..036dc5f 100644
--- a/posydon/binary_evol/CE/step_CEE.py
+++ b/posydon/binary_evol/CE/step_CEE.py
@@ -435,10 +435,10 @@ class StepCEE(object):
         else:
             if comp_type == 'He_core':
                 mc2_f = comp_star.he_core_mass
-                rc2_f = donor.he_core_radius
+                rc2_f = comp_star.he_core_radius
             elif comp_type == 'CO_core':
                 mc2_f = comp_star.co_core_mass
-                rc2_f = donor.co_core_radius
+                rc2_f = comp_star.co_core_radius
             elif comp_type == 'not_giant_companion':
                 mc2_f = comp_star.mass
                 rc2_f = 10.**(comp_star.log_R)
-- 
2.43.0


From ec3b81371a863cf401459d9464b98c220af5047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:56 +0000
Subject: [PATCH 049/118] fix: partial envelope ejection of a merging single
 common envelope crashed

---
 posydon/binary_evol/CE/step_CEE.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/CE/step_CEE.py b/posydon/binary_evol/CE/step_CEE.py
index 036dc5f..8f9caa9 100644
--- a/posydon/binary_evol/CE/step_CEE.py
+++ b/posydon/binary_evol/CE/step_CEE.py
@@ -1288,8 +1288,12 @@ class StepCEE(object):
                       const.Msun/(2. * separation_before_merger)
         E_orb_released_to_inner_RLOF = alpha_CE * (E_orb_initial - E_orb_final)
 
+        M_envelope_donor = m1_i  - mc1_i
+        M_envelope_companion = m2_i - mc2_i
+
         # We assume "lambda_from_profile_gravitational_plus_internal_minus_recombination"
         if not double_CE:
+            Mejected_comp = 0.0
             Mejected_donor = \
                 calculate_Mejected_for_integrated_binding_energy(donor.profile,
                     E_orb_released_to_inner_RLOF, mc1_i, rc1_i, m1_i, radius1)
@@ -1300,8 +1304,6 @@ class StepCEE(object):
             # ejection of each (common) envelope is the same as the ratio of
             # the initial envelope masses:
 
-            M_envelope_donor = m1_i  - mc1_i
-            M_envelope_companion = m2_i - mc2_i
             weight = M_envelope_donor / (M_envelope_donor + M_envelope_companion)
 
             Eorb_for_partial_ej_donor = E_orb_released_to_inner_RLOF * weight
-- 
2.43.0


From dae986c53189821e10024594c7b0fa52656bed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:56 +0000
Subject: [PATCH 050/118] fix: the whole envelope was ejected when no orbital
 energy is released

---
 posydon/utils/common_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index 0aa8bed..404a53d 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -2855,7 +2855,7 @@ def calculate_Mejected_for_integrated_binding_energy(profile, Ebind_threshold,
         U_energy = U_energy + specific_internal_energy[i]*donor_dm[i]*const.Msun
         Ebind_so_far = Grav_energy + factor_internal_energy * U_energy
         i=i+1
-    ind_threshold = i-1
+    ind_threshold = max(i-1, 0)
 
     if donor_mass[ind_threshold]< mc1_i or  donor_radius[ind_threshold]<rc1_i:
         Pwarn("partial mass ejected is greater than the envelope mass", "EvolutionWarning")
-- 
2.43.0


From 4c13813123f52ae1368b0a1ff31d25e83b906fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:17 +0000
Subject: [PATCH 051/118] fix: merging helium stars mixed their surfaces with
 the merged masses as weights

---
 posydon/binary_evol/DT/step_merged.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/posydon/binary_evol/DT/step_merged.py b/posydon/binary_evol/DT/step_merged.py
index 55e697d..bd19272 100644
--- a/posydon/binary_evol/DT/step_merged.py
+++ b/posydon/binary_evol/DT/step_merged.py
@@ -642,11 +642,6 @@ class MergedStep(IsolatedStep):
                 else:
                     Pwarn("Unexpected combination of CO core masses during merging", "EvolutionWarning")
 
-                # add total and core masses
-                for key in ["mass", "he_core_mass", "c_core_mass", "o_core_mass", "co_core_mass"]:
-                    current = getattr(star_base, key) + getattr(comp, key)
-                    setattr(merged_star, key,current)
-
                 # weigheted mixing on the surface abundances based on the He-rich envelopes of the two stars
                 additional_parameter_to_mix = ['surface_h1', 'surface_he4', 'surface_c12', 'surface_n14', 'surface_o16']
                 for abundance_name in additional_parameter_to_mix:
@@ -656,6 +651,11 @@ class MergedStep(IsolatedStep):
                                                                                 mass_weight1="He-rich_envelope_mass",
                                                                                 mass_weight2="He-rich_envelope_mass"))
 
+                # add total and core masses, after the calculation of weighted averages
+                for key in ["mass", "he_core_mass", "c_core_mass", "o_core_mass", "co_core_mass"]:
+                    current = getattr(star_base, key) + getattr(comp, key)
+                    setattr(merged_star, key,current)
+
                 # Set parameters that are not expected to be meaningful after a merger to np.nan
                 self._apply_nan_attributes(merged_star)
 
-- 
2.43.0


From c151c3721f5f9e27a1c1e93140d83b39e17343b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:17 +0000
Subject: [PATCH 052/118] fix: merger with a main-sequence star lost the
 burning luminosities of the core

---
 posydon/binary_evol/DT/step_merged.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/DT/step_merged.py b/posydon/binary_evol/DT/step_merged.py
index bd19272..40e97b1 100644
--- a/posydon/binary_evol/DT/step_merged.py
+++ b/posydon/binary_evol/DT/step_merged.py
@@ -289,11 +289,12 @@ class MergedStep(IsolatedStep):
                 merged_star.mass = star_base.mass + comp.mass
 
                 # Set parameters that are not expected to be meaningful after a merger to np.nan
+                log_LHe, log_LZ = star_base.log_LHe, star_base.log_LZ
                 self._apply_nan_attributes(merged_star)
 
                 # Set burning luminosities and star state.
-                merged_star.log_LHe = star_base.log_LHe
-                merged_star.log_LZ = star_base.log_LZ
+                merged_star.log_LHe = log_LHe
+                merged_star.log_LZ = log_LZ
                 merged_star.state = check_state_of_star(merged_star, star_CO=False)  # TODO for sure this needs testing!
 
                 massless_remnant = convert_star_to_massless_remnant(comp)
@@ -316,11 +317,12 @@ class MergedStep(IsolatedStep):
                 merged_star.mass = star_base.mass + comp.mass
 
                 # Set parameters that are not expected to be meaningful after a merger to np.nan
+                log_LHe, log_LZ = comp.log_LHe, comp.log_LZ
                 self._apply_nan_attributes(merged_star)
 
                 # Set burning luminosities and star state.
-                merged_star.log_LHe = comp.log_LHe
-                merged_star.log_LZ = comp.log_LZ
+                merged_star.log_LHe = log_LHe
+                merged_star.log_LZ = log_LZ
                 merged_star.state = check_state_of_star(merged_star, star_CO=False)
 
                 massless_remnant = convert_star_to_massless_remnant(star_base)
-- 
2.43.0


From fbe09be38553d650fc3e53e17c0d1d86fd83c9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:40 +0000
Subject: [PATCH 053/118] fix: black hole mass without a usable profile was
 given in wrong units

---
 posydon/binary_evol/SN/profile_collapse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/SN/profile_collapse.py b/posydon/binary_evol/SN/profile_collapse.py
index 23abc1b..2197afd 100644
--- a/posydon/binary_evol/SN/profile_collapse.py
+++ b/posydon/binary_evol/SN/profile_collapse.py
@@ -184,7 +184,7 @@ def get_initial_BH_properties(star, mass_collapsing, mass_central_BH,
               "collapse the star and determine the remnant properties.",
               'InappropriateValueWarning')
         # estimate still initial BH mass
-        mass_initial_BH = mass_central_BH - neutrino_mass_loss
+        mass_initial_BH = (mass_central_BH - neutrino_mass_loss) * const.Msun
         return [mass_initial_BH, np.nan, np.nan, np.array([]), np.array([]),
                 np.array([]), np.array([]), np.array([]), np.array([]),
                 np.array([]), np.array([]), np.nan]
-- 
2.43.0


From 6b08b1382cf5e70a31dfa55f70365d6402d17cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:29 +0000
Subject: [PATCH 054/118] fix: one unreadable history file spoiled the columns
 of the whole grid

---
 posydon/grids/io.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/posydon/grids/io.py b/posydon/grids/io.py
index 80e0565..a9e04a1 100644
--- a/posydon/grids/io.py
+++ b/posydon/grids/io.py
@@ -338,22 +338,18 @@ class GridReader:
             `history2` are prefixed with `star1_` and `star2_` respectively.
 
         """
-        BH_from, H1_from, H2_from = None, None, None
+        BH, H1, H2 = None, None, None
 
         for run in self.runs:
-            if BH_from is None:
-                BH_from = run.binary_history_path
-            if H1_from is None:
-                H1_from = run.history1_path
-            if H2_from is None:
-                H2_from = run.history2_path
-            if not (BH_from is None or H1_from is None or H2_from is None):
+            if BH is None:
+                BH = read_MESA_data_file(run.binary_history_path, BH_cols)
+            if H1 is None:
+                H1 = read_MESA_data_file(run.history1_path, H1_cols)
+            if H2 is None:
+                H2 = read_MESA_data_file(run.history2_path, H2_cols)
+            if not (BH is None or H1 is None or H2 is None):
                 break
 
-        BH, H1, H2 = [read_MESA_data_file(path, columns)
-                      for path, columns in zip([BH_from, H1_from, H2_from],
-                                               [BH_cols, H1_cols, H2_cols])]
-
         BH_names = [] if BH is None else list(BH.dtype.names)
         H1_names = [] if H1 is None else list(H1.dtype.names)
         H2_names = [] if H2 is None else list(H2.dtype.names)
-- 
2.43.0


From af75a481e22e29f1f40ba3e4321e48ebdf7fdd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:00 +0000
Subject: [PATCH 055/118] fix: values of a lazily loaded grid got lost when a
 column was added

---
 posydon/grids/psygrid.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index 84f356b..91becab 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -1452,6 +1452,12 @@ class PSyGrid:
 
         driver_args = {} if "%d" not in self.filepath else {
             "driver": "family", "memb_size": HDF5_MEMBER_SIZE}
+        # get data into memory, which get not accessible by closing the file
+        if self.hdf5:
+            for values in [self.initial_values, self.final_values,
+                           *self._SN_values.values()]:
+                if isinstance(values, LazyHDF5):
+                    values._dataset = values.__array__()
         self.close()
         mode = "a" if writeable else "r"
         self.hdf5 = h5py.File(self.filepath, mode, **driver_args)
-- 
2.43.0


From 79aaefe22d5ceb232ed0b0be1e6f6984ecfc9b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:55 +0000
Subject: [PATCH 056/118] fix: columns of MESA files got wrong names when all
 of them are read in another order

---
 posydon/utils/gridutils.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/posydon/utils/gridutils.py b/posydon/utils/gridutils.py
index b78ff1a..eb0e274 100644
--- a/posydon/utils/gridutils.py
+++ b/posydon/utils/gridutils.py
@@ -99,9 +99,14 @@ def read_MESA_data_file(path, columns):
         return None
     elif os.path.exists(path):
         try:
-            return np.atleast_1d(np.genfromtxt(path, skip_header=5, names=True,
+            data = np.atleast_1d(np.genfromtxt(path, skip_header=5, names=True,
                                                usecols=columns,
                                                invalid_raise=False))
+            if columns is not None and data.dtype.names is not None:
+                # genfromtxt brings the data into the order of `columns`, but
+                # not the names, if all the columns of the file are requested
+                data.dtype.names = tuple(columns)
+            return data
         except:
             Pwarn("Problems with reading file "+path, "MissingFilesWarning")
             return None
@@ -114,8 +119,13 @@ def read_EEP_data_file(path, columns):
     if path is None:
         return None
     try:
-        return np.atleast_1d(np.genfromtxt(path, skip_header=11, names=True,
+        data = np.atleast_1d(np.genfromtxt(path, skip_header=11, names=True,
                                            usecols=columns, invalid_raise=False))
+        if columns is not None and data.dtype.names is not None:
+            # genfromtxt brings the data into the order of `columns`, but
+            # not the names, if all the columns of the file are requested
+            data.dtype.names = tuple(columns)
+        return data
     except:
         Pwarn("Problems with reading file "+path, "MissingFilesWarning")
         return None
-- 
2.43.0


From 528d53f4f295d383861004de0119e107aa9ab21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:55 +0000
Subject: [PATCH 057/118] fix: overwriting a column of a lazily loaded grid
 destroyed its final values

---
 posydon/grids/lazy_hdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/grids/lazy_hdf.py b/posydon/grids/lazy_hdf.py
index b06ec19..28600b2 100644
--- a/posydon/grids/lazy_hdf.py
+++ b/posydon/grids/lazy_hdf.py
@@ -73,7 +73,7 @@ class LazyHDF5:
         return data
 
     def astype(self, dtype): # pragma: no cover
-        return LazyHDF5(np.asarray(self).astype(dtype), self._dtype_set)
+        return LazyHDF5(np.asarray(self).astype(dtype))
 
     @property
     def dtype(self):
-- 
2.43.0


From b77116bdb64d4bc097607fb74c54d68a15c0c59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:29 +0000
Subject: [PATCH 058/118] fix: linear interpolation without classes returned
 normalised values

The scalers of an interpolator without class-wise interpolation only know the
class None, hence de-normalising by predicted classes was skipped. Outside of
the convex hull the prediction failed, because no scaler was handed over.
---
 posydon/interpolation/IF_interpolation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index 407e43a..b8e63fa 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -700,13 +700,15 @@ class BaseIFInterpolator:
             Ypredn = self.interpolator.predict(Xtn, classes, self.X_scaler)
         else:
             Xtn = self.X_scaler.normalize(Xt)
-            Ypredn = self.interpolator.predict(Xtn)
+            Ypredn = self.interpolator.predict(Xtn, scaler=self.X_scaler)
 
+        Ypred = self.Y_scaler.denormalize(
+            Ypredn, classes if isinstance(self.interp_method, list) else None)
         Ypredn = np.array([
             list(sanitize_interpolated_quantities(
                  dict(zip(self.out_keys, track)),
                  self.constraints, verbose=False).values())
-            for track in self.Y_scaler.denormalize(Ypredn, classes)
+            for track in Ypred
         ])
 
         return Ypredn
-- 
2.43.0


From 40eef9e350ee17dd9abf3028a993885dcb53611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:29 +0000
Subject: [PATCH 059/118] fix: nearest neighbour interpolation could not be
 trained with default scaling

The scaling has to be a pair as for the other methods. The placeholder of
missing values is replaced by NaN before the constraints are applied to it.
---
 posydon/interpolation/IF_interpolation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index b8e63fa..0c35583 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -526,7 +526,7 @@ class BaseIFInterpolator:
             if (self.in_scaling is None) or (self.out_scaling is None):
                 if self.interp_method == '1NN':
                     self.in_scaling, self.out_scaling = (self._bestInScaling(_get_grid_column(grid, self.c_key)),
-                                                         ['none']*self.n_out)
+                                                         (['none']*self.n_out, ['none']*self.n_out))
                 else:
                     self.in_scaling, self.out_scaling = self._bestScaling(_get_grid_column(grid, self.c_key))
 
@@ -704,6 +704,8 @@ class BaseIFInterpolator:
 
         Ypred = self.Y_scaler.denormalize(
             Ypredn, classes if isinstance(self.interp_method, list) else None)
+        if self.interp_method == '1NN':
+            Ypred[Ypred == -100] = np.nan   # undo placeholder of nans
         Ypredn = np.array([
             list(sanitize_interpolated_quantities(
                  dict(zip(self.out_keys, track)),
@@ -840,8 +842,6 @@ class BaseIFInterpolator:
         ynum, ycat = self.test_interpolator(Xt), self.test_classifiers(Xt)
         if self.class_method != '1NN':
             ynum[ycat[self.c_key] == 'initial_MT', :] = np.nan
-        if self.interp_method == '1NN':
-            ynum[ynum == - 100] = np.nan
 
         return ynum, ycat
 
-- 
2.43.0


From b2f89d1b73417a0089fa3db75c1767983ca00e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:29 +0000
Subject: [PATCH 060/118] fix: runs discarded from the interpolation were taken
 back by their class

---
 posydon/interpolation/IF_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index 0c35583..141f922 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -642,7 +642,7 @@ class BaseIFInterpolator:
         valid[which] = -1
         print(f"Discarded {np.sum(which)} binaries with nans in input values.")
         for i, flag in enumerate(self.valid_classes):
-            valid[ic == flag] = i + 1
+            valid[(ic == flag) & (valid >= 0)] = i + 1
 
         if(self.interp_in_q):   # if HMS-HMS grid, take out q = 1
             for i, iv in enumerate(X):
-- 
2.43.0


From 691cb36aaa6b8193a57f163dab3f8efbaf227089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:29 +0000
Subject: [PATCH 061/118] fix: class-wise normalisation of inputs used the runs
 of other classes

---
 posydon/interpolation/IF_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index 141f922..7cc331b 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -532,7 +532,7 @@ class BaseIFInterpolator:
 
             self.X_scaler = Scaler(self.in_scaling,
                                    self.XT[self.valid >= 0, :],
-                                   _get_grid_column(grid, self.c_key)[self.valid > 0])
+                                   _get_grid_column(grid, self.c_key)[self.valid >= 0])
             self.Y_scaler = Scaler(self.out_scaling,
                                    self.YT[self.valid > 0, :],
                                    _get_grid_column(grid, self.c_key)[self.valid > 0])
-- 
2.43.0


From d936d4aff772c3111bb14ca8d5f8cc0aade962fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:29 +0000
Subject: [PATCH 062/118] fix: training an interpolator removed constraints
 from the others

---
 posydon/interpolation/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/interpolation/constraints.py b/posydon/interpolation/constraints.py
index 45fbf75..bd2f479 100644
--- a/posydon/interpolation/constraints.py
+++ b/posydon/interpolation/constraints.py
@@ -436,7 +436,7 @@ def find_constraints_to_apply(out_keys):
             if len(new_fields) == 0:
                 should_apply = False
             else:
-                constraint["fields"] = new_fields
+                constraint = {**constraint, "fields": new_fields}
 
         elif constraint["type"] == 3:
 
-- 
2.43.0


From bbffec0ea07853b231bbb5f4e919729e3b8a6e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:29 +0000
Subject: [PATCH 063/118] fix: constraints appended quantities which are not
 interpolated

This shifted the columns of the results of several interpolators.
---
 posydon/interpolation/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/interpolation/constraints.py b/posydon/interpolation/constraints.py
index bd2f479..2cc68cc 100644
--- a/posydon/interpolation/constraints.py
+++ b/posydon/interpolation/constraints.py
@@ -415,7 +415,7 @@ def find_constraints_to_apply(out_keys):
 
         if constraint["type"] == 1:
 
-            for field in constraint["independent"]:
+            for field in [constraint["dependent"], *constraint["independent"]]:
                 if field.format(1) not in out_keys:
                     should_apply = False
 
-- 
2.43.0


From 370f4397609a10436c24d135c26ae84eeeb36a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:29 +0000
Subject: [PATCH 064/118] fix: sums constrained by another quantity could not
 be corrected

---
 posydon/interpolation/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/interpolation/constraints.py b/posydon/interpolation/constraints.py
index 2cc68cc..62cfca2 100644
--- a/posydon/interpolation/constraints.py
+++ b/posydon/interpolation/constraints.py
@@ -159,7 +159,7 @@ def correct_sum(fv_dict, sum_keys, constraint):
 
     if abs(keys_sum - target) > EPS:
         for key in sum_keys:
-            fv_dict[key] = constraint * (fv_dict[key] / keys_sum)
+            fv_dict[key] = target * (fv_dict[key] / keys_sum)
 
     return fv_dict
 
-- 
2.43.0


From 79ed4e2d6586f8b7c1e8c74fe6273f0173237fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:46 +0000
Subject: [PATCH 065/118] fix: normalisation of inputs was chosen from
 discarded runs and other inputs

A run with missing initial values turned every choice into a logarithm and the
choice for a class mixed the values of all the inputs.
---
 posydon/interpolation/IF_interpolation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/posydon/interpolation/IF_interpolation.py b/posydon/interpolation/IF_interpolation.py
index 7cc331b..55548c2 100644
--- a/posydon/interpolation/IF_interpolation.py
+++ b/posydon/interpolation/IF_interpolation.py
@@ -911,7 +911,10 @@ class BaseIFInterpolator:
             in_scaling = []  # I assume inputs are positive-valued
             for i in range(self.n_in):
 
-                dim = self.XT[:, i] if klass is None else self.XT[np.where(ic == klass)[0]]
+                which = self.valid >= 0
+                if klass is not None:
+                    which = which & (ic == klass)
+                dim = self.XT[which, i]
 
                 if (np.abs(np.mean(dim) - np.median(dim))
                         / np.std(dim)
-- 
2.43.0


From 335f928cf39d5a6dd738b206f7947a4f21c22379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:38 +0000
Subject: [PATCH 066/118] fix: age of the secondary was read from a history
 without ages

---
 posydon/grids/scrubbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/grids/scrubbing.py b/posydon/grids/scrubbing.py
index 1d44e8b..f447171 100644
--- a/posydon/grids/scrubbing.py
+++ b/posydon/grids/scrubbing.py
@@ -258,7 +258,7 @@ def keep_till_central_abundance_He_C(bh, h1, h2,
                 age_He_depletion1 = h1["star_age"][last_index]
             else:
                 age_He_depletion1 = bh["age"][last_index]
-            if ("star_age" in h1.dtype.names):
+            if ("star_age" in h2.dtype.names):
                 age_He_depletion2 = h2["star_age"][last_index2]
             else:
                 age_He_depletion2 = bh["age"][last_index2]
-- 
2.43.0


From 355cf5b4e20e6f8353801c5ef0c2f70189c451da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:18 +0000
Subject: [PATCH 067/118] fix: lowest companion mass of HMS-HMS binaries was
 wrong for swapped stars

---
 posydon/binary_evol/MESA/step_mesa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index bfaec1b..3cd83b0 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1330,7 +1330,7 @@ class MS_MS_step(MesaGridStep):
               state_2 == 'H-rich_Core_H_burning' and
               event == 'ZAMS' and
               self.m1_min <= m2 <= self.m1_max and
-              np.max([self.q_min, 0.5/m1]) <= 1./mass_ratio <= self.q_max and
+              np.max([self.q_min, 0.5/m2]) <= 1./mass_ratio <= self.q_max and
               self.p_min <= p <= self.p_max):
             self.flip_stars_before_step = True
             super().__call__(self.binary)
-- 
2.43.0


From 6fc6f98593544f73df1af0e7b0adf0ad32af18c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:14 +0000
Subject: [PATCH 068/118] fix: MESA steps using an interpolator could not stop
 at the end of the grid

---
 posydon/binary_evol/MESA/step_mesa.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 3cd83b0..34b8f29 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -235,11 +235,9 @@ class MesaGridStep:
         z_str = convert_metallicity_to_string(self.metallicity)
         self.grid_name = os.path.join(self.grid_path, f"{z_str}_Zsun.h5")
 
-        # we load NN any time stop_at_max_time requested - regardless
-        # of interp method
-        if (self.stop_method == 'stop_at_max_time'
-                or self.interpolation_method == 'nearest_neighbour'):
-            self.load_psyTrackInterp()
+        # we always load NN, regardless of interp method: it is needed if
+        # stop_at_max_time is requested and for the boundaries of the grid
+        self.load_psyTrackInterp()
 
         self.grid_name = self.grid_name.replace('_%d', '')
 
-- 
2.43.0


From ff46ddd2f9ac2cbc96699eb7cdd726ce5ebf049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:14 +0000
Subject: [PATCH 069/118] fix: accretion history of compact objects exceeded
 the Eddington limit

---
 posydon/binary_evol/MESA/step_mesa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 34b8f29..f37d122 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -845,7 +845,7 @@ class MesaGridStep:
                 history_of_attribute = np.log10(10**cb_bh[key_bh][:-1] + tmp_h)
                 history_of_attribute = [
                     y if x > y else x
-                    for x, y in zip(history_of_attribute, tmp_edd)]
+                    for x, y in zip(history_of_attribute, np.log10(tmp_edd))]
                 accretor.lg_mdot_history.extend(history_of_attribute)
 
         # update post processed quanties
-- 
2.43.0


From 2149218cf2995a4f80f3bf92fde1fad1aa459ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:14 +0000
Subject: [PATCH 070/118] fix: CO-HeMS binaries with swapped stars were
 compared to the wrong grid edges

---
 posydon/binary_evol/MESA/step_mesa.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index f37d122..be9c775 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1692,17 +1692,35 @@ class CO_HeMS_step(MesaGridStep):
             super().__call__(binary)
 
         # period inside the grid, but m1 outside the grid
-        elif (self.p_min <= p <= self.p_max) and (m1 < self.m1_min or m1 > self.m1_max):
+        elif (not self.flip_stars_before_step and
+              (self.p_min <= p <= self.p_max) and
+              (m1 < self.m1_min or m1 > self.m1_max)):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m1 ({m1}) is outside the grid,'
                              ' while the period is inside the grid.')
 
         # period inside the grid, but m2 outside the grid
-        elif (self.p_min <= p <= self.p_max) and (m2 < self.m2_min or m2 > self.m2_max):
+        elif (not self.flip_stars_before_step and
+              (self.p_min <= p <= self.p_max) and
+              (m2 < self.m2_min or m2 > self.m2_max)):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m2 ({m2}) is outside the grid,'
                              ' while the period is inside the grid.')
 
+        elif (self.flip_stars_before_step and
+              (self.p_min <= p <= self.p_max) and
+              (m2 < self.m1_min or m2 > self.m1_max)):
+            set_binary_to_failed(self.binary)
+            raise GridError(f'The mass of m1 ({m2}) is outside the grid,'
+                             ' while the period is inside the grid.')
+
+        elif (self.flip_stars_before_step and
+              (self.p_min <= p <= self.p_max) and
+              (m1 < self.m2_min or m1 > self.m2_max)):
+            set_binary_to_failed(self.binary)
+            raise GridError(f'The mass of m2 ({m1}) is outside the grid,'
+                             ' while the period is inside the grid.')
+
         else:
             self.binary.state = 'detached'
             self.binary.event = 'redirect_from_CO_HeMS'
-- 
2.43.0


From 77649902b83bc4c51a569f7737b27b207465b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:14 +0000
Subject: [PATCH 071/118] fix: CO-HeMS binaries outside of the grid failed
 instead of being redirected

---
 posydon/binary_evol/MESA/step_mesa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index be9c775..4e7c5ec 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1595,14 +1595,14 @@ class CO_HeMS_RLO_step(MesaGridStep):
         # period inside the grid, but m1 outside the grid with flipped stars
         elif ((self.flip_stars_before_step and
                self.p_min <= p <= self.p_max and
-               m1 < self.m2_min or m1 > self.m2_max)):
+               (m1 < self.m2_min or m1 > self.m2_max))):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m2 ({m1}) is outside the grid,'
                                 ' while the period is inside the grid.')
         # period inside the grid, but m2 outside the grid with flipped stars
         elif ((self.flip_stars_before_step and
                 self.p_min <= p <= self.p_max and
-                m2 < self.m1_min or m2 > self.m1_max)):
+                (m2 < self.m1_min or m2 > self.m1_max))):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m1 ({m2}) is outside the grid,'
                                 ' while the period is inside the grid.')
-- 
2.43.0


From 32da49c36cb3b11757634617b926dce0669f18dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:14 +0000
Subject: [PATCH 072/118] fix: MESA steps failed when neither initial
 conditions nor the track are kept

---
 posydon/binary_evol/MESA/step_mesa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 4e7c5ec..d3b320b 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -507,11 +507,11 @@ class MesaGridStep:
         if binary.state == 'initial_RLOF':
             return
 
+        len_binary_hist = len(getattr(binary, "time_history"))
+        length_binary_hist = len(cb_bh['age']) - 1
+        length_star_hist = len(cb_hs[0]['center_he4']) - 1
+        length_hist = min(length_binary_hist, length_star_hist)
         if track_interpolation or self.save_initial_conditions:
-            len_binary_hist = len(getattr(binary, "time_history"))
-            length_binary_hist = len(cb_bh['age']) - 1
-            length_star_hist = len(cb_hs[0]['center_he4']) - 1
-            length_hist = min(length_binary_hist, length_star_hist)
             empty_h = [None] * length_hist
             MESA_history_bug_fix = False
             if length_binary_hist != length_star_hist:
-- 
2.43.0


From bd6a1e6a925bc3f27e18d744a1f1349a4c43c30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:02 +0000
Subject: [PATCH 073/118] fix: states at the maximum time were taken from the
 end of the MESA track

---
 posydon/binary_evol/MESA/step_mesa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index d3b320b..ed7711e 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1240,6 +1240,7 @@ class MesaGridStep:
                 # detele last N entries from history
                 setattr(binary, key_history,
                         getattr(binary, key_history)[:self.flush_entries])
+        if self.flush_history or interpolate:
             # Check star and binary state, event, MT case
             setattr(
                 self.binary.star_1, 'state',
-- 
2.43.0


From bb4cfec4713323ffdeb3b0513448afafe6e6f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:02 +0000
Subject: [PATCH 074/118] fix: MESA steps failed when a run ends exactly at the
 maximum time

---
 posydon/binary_evol/MESA/step_mesa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index ed7711e..da5a5a4 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -396,7 +396,7 @@ class MesaGridStep:
             self.step(binary, interp_method=self.interpolation_method)
 
         if (self.stop_method == 'stop_at_max_time'
-                and binary.time >= binary.properties.max_simulation_time):
+                and binary.time > binary.properties.max_simulation_time):
 
             # self.flush_history = True # needed???
 
-- 
2.43.0


From 97770e1e3262249d2e3e59adfd9f9cf143043c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:35 +0000
Subject: [PATCH 075/118] fix: detectability took the lighter object as primary
 if it was star 1

---
 posydon/popsyn/transient_select_funcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/posydon/popsyn/transient_select_funcs.py b/posydon/popsyn/transient_select_funcs.py
index c3169e5..7525d98 100644
--- a/posydon/popsyn/transient_select_funcs.py
+++ b/posydon/popsyn/transient_select_funcs.py
@@ -307,6 +307,9 @@ def DCO_detectability(sensitivity, transient_pop_chunk, z_events_chunk, z_weight
         data_slice['q'] = transient_pop_chunk['q']
     else:
         data_slice['q'] = mass_ratio(transient_pop_chunk['S1_mass'].to_numpy(),  transient_pop_chunk['S2_mass'].to_numpy())
+        # the mass ratio is below one, hence the primary is the heavier object
+        data_slice['m1'] = np.maximum(transient_pop_chunk['S1_mass'],
+                                      transient_pop_chunk['S2_mass'])
 
     if 'chi_eff' in transient_pop_chunk.columns:
         data_slice['chieff'] = transient_pop_chunk['chi_eff']
-- 
2.43.0


From fe7b420e0d8b7a2fcfee1c6e63c8f993c8ad0713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:35 +0000
Subject: [PATCH 076/118] fix: calculation of the detectability changed the
 weights passed in

---
 posydon/popsyn/transient_select_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/transient_select_funcs.py b/posydon/popsyn/transient_select_funcs.py
index 7525d98..231b444 100644
--- a/posydon/popsyn/transient_select_funcs.py
+++ b/posydon/popsyn/transient_select_funcs.py
@@ -322,7 +322,7 @@ def DCO_detectability(sensitivity, transient_pop_chunk, z_events_chunk, z_weight
                                         transient_pop_chunk['S1_spin_orbit_tilt_at_merger'],
                                         transient_pop_chunk['S2_spin_orbit_tilt_at_merger'])
 
-    detectable_weights = z_weights_chunk.to_numpy()
+    detectable_weights = z_weights_chunk.to_numpy(copy=True)
     for i in tqdm(range(z_events_chunk.shape[1]), total=z_events_chunk.shape[1], disable= not verbose):
         data_slice['z'] = z_events_chunk.iloc[:,i]
         mask = pd.notna(data_slice['z']).to_numpy()
-- 
2.43.0


From 2065931f689b84a37b548e90d1e6c538c0c06d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:35 +0000
Subject: [PATCH 077/118] fix: calculation of the effective spin changed its
 arguments

---
 posydon/popsyn/transient_select_funcs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/posydon/popsyn/transient_select_funcs.py b/posydon/popsyn/transient_select_funcs.py
index 231b444..576e864 100644
--- a/posydon/popsyn/transient_select_funcs.py
+++ b/posydon/popsyn/transient_select_funcs.py
@@ -150,18 +150,22 @@ def chi_eff(m_1, m_2, a_1, a_2, tilt_1, tilt_2):
     if pd.isna(a_1).any():
         Pwarn("a_1 contains undefined values, replacing them with 0.0",
               'ReplaceValueWarning')
+        a_1 = a_1.copy()
         a_1[pd.isna(a_1)] = 0.0
     if pd.isna(a_2).any():
         Pwarn("a_2 contains undefined values, replacing them with 0.0",
               'ReplaceValueWarning')
+        a_2 = a_2.copy()
         a_2[pd.isna(a_2)] = 0.0
     if pd.isna(tilt_1).any():
         Pwarn("tilt_1 contains undefined values, replacing them with 0.0",
               'ReplaceValueWarning')
+        tilt_1 = tilt_1.copy()
         tilt_1[pd.isna(tilt_1)] = 0.0
     if pd.isna(tilt_2).any():
         Pwarn("tilt_2 contains undefined values, replacing them with 0.0",
               'ReplaceValueWarning')
+        tilt_2 = tilt_2.copy()
         tilt_2[pd.isna(tilt_2)] = 0.
     return (m_1*a_1*np.cos(tilt_1)+m_2*a_2*np.cos(tilt_2))/(m_1+m_2)
 
-- 
2.43.0


From 1f7cc78e400fd2e4d62fde5814cd339242f60e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:28 +0000
Subject: [PATCH 078/118] fix: beaming factors of Pescalli+15 failed for bursts
 without energy

---
 posydon/popsyn/GRB.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/GRB.py b/posydon/popsyn/GRB.py
index dd0b3ab..8d6c33d 100644
--- a/posydon/popsyn/GRB.py
+++ b/posydon/popsyn/GRB.py
@@ -80,7 +80,7 @@ def get_GRB_properties(df, GRB_efficiency, GRB_beaming, E_GRB_iso_min=0.):
                 t=25.
                 C = (7e46)**xi
                 fb = np.ones(len(E))
-                fb[E>0.] = (C*(eta*E[E>0.]/t)**(-xi))**(1./(1-xi))
+                fb[E>0.] = (C*(eta[E>0.]*E[E>0.]/t)**(-xi))**(1./(1-xi))
                 return fb
             E = df.loc[sel,f'S{i}_E_GRB']
             eta = df.loc[sel,f'S{i}_eta']
-- 
2.43.0


From f09c114c342479653e21dd320ea6c4837dcd0a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:09 +0000
Subject: [PATCH 079/118] fix: rescue scripts lost the part of options and
 paths after an equal sign

---
 posydon/CLI/io.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/posydon/CLI/io.py b/posydon/CLI/io.py
index d9ec806..c4f8bce 100644
--- a/posydon/CLI/io.py
+++ b/posydon/CLI/io.py
@@ -528,7 +528,7 @@ def create_batch_rescue_script(args, batch_status):
 
     for line in lines:
         if line.startswith('#SBATCH --array='):
-            array_range = line.split('=')[1].strip()
+            array_range = line.split('=', 1)[1].strip()
             if '%' in array_range:
                 tmp_array_range = array_range.split('%')[0]
                 max_concurrent_jobs = int(array_range.split('%')[1])
@@ -538,21 +538,21 @@ def create_batch_rescue_script(args, batch_status):
                 start, end = map(int, tmp_array_range.split('-'))
                 job_array_length = end - start + 1
         elif line.startswith("#SBATCH --time="):
-            walltime = line.split('=')[1].strip()
+            walltime = line.split('=', 1)[1].strip()
         elif line.startswith("#SBATCH --mem-per-cpu="):
-            mem_per_cpu = line.split('=')[1].strip()
+            mem_per_cpu = line.split('=', 1)[1].strip()
         elif line.startswith("#SBATCH --partition="):
-            partition = line.split('=')[1].strip()
+            partition = line.split('=', 1)[1].strip()
         elif line.startswith("#SBATCH --account="):
-            account = line.split('=')[1].strip()
+            account = line.split('=', 1)[1].strip()
         elif line.startswith("#SBATCH --mail-user="):
-            email = line.split('=')[1].strip()
+            email = line.split('=', 1)[1].strip()
         elif line.startswith("#SBATCH --exclude="):
-            exclude = line.split('=')[1].strip()
+            exclude = line.split('=', 1)[1].strip()
         elif line.startswith("export PATH_TO_POSYDON="):
-            path_to_posydon = line.split('=')[1].strip()
+            path_to_posydon = line.split('=', 1)[1].strip()
         elif line.startswith("export PATH_TO_POSYDON_DATA="):
-            path_to_posydon_data = line.split('=')[1].strip()
+            path_to_posydon_data = line.split('=', 1)[1].strip()
 
     # Override with command-line arguments if provided
     if args.walltime is not None:
-- 
2.43.0


From a7fed4cab414cd5756d5381527d2ba55da3fc559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:09 +0000
Subject: [PATCH 080/118] fix: rescue failed if the batches of another
 metallicity were complete

---
 posydon/CLI/popsyn/check.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/posydon/CLI/popsyn/check.py b/posydon/CLI/popsyn/check.py
index 519817f..72edb70 100644
--- a/posydon/CLI/popsyn/check.py
+++ b/posydon/CLI/popsyn/check.py
@@ -809,6 +809,9 @@ def check_popsyn_function(args):
         # Create rescue scripts
         rescue_scripts = []
         for _, status in batch_status.items():
+            # only merging is left to do where all batches are available
+            if status["status"] == "complete":
+                continue
             print_separator_line()
             print("\nGENERATING A RESCUE SCRIPT ....................")
             rescue_scripts.append(create_batch_rescue_script(args, status))
-- 
2.43.0


From 729fc5c7d75ca221e1565f4dc8b646511ebf8f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:09 +0000
Subject: [PATCH 081/118] fix: merging included leftover batches of failed jobs

---
 posydon/CLI/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/CLI/io.py b/posydon/CLI/io.py
index c4f8bce..5377dae 100644
--- a/posydon/CLI/io.py
+++ b/posydon/CLI/io.py
@@ -89,7 +89,8 @@ def create_merge_script_text(ini_file):
             synpop = BinaryPopulation(**ini_kw)
             path_to_batch = ini_kw["temp_directory"]
             tmp_files = [os.path.join(path_to_batch, f) for f in os.listdir(path_to_batch)
-                         if os.path.isfile(os.path.join(path_to_batch, f))]
+                         if f.startswith("evolution.combined.")
+                         and os.path.isfile(os.path.join(path_to_batch, f))]
             tmp_files = sorted(tmp_files, key=lambda x: int(x.split(".h5")[0].split(".")[-1]))
             synpop.combine_saved_files(str_met + "_Zsun_population.h5", tmp_files)
             print("done")
-- 
2.43.0


From 97e7c968982abf4f38c0bdb16cbb596ae708d704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:02 +0000
Subject: [PATCH 082/118] fix: periods of Moe+17 with all_binaries follow the
 period distribution

The cumulative distribution of the orbital periods ends at the binary
fraction. With all_binaries=True the random numbers above it were all put
at the maximum orbital period.
---
 posydon/popsyn/Moes_distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/posydon/popsyn/Moes_distributions.py b/posydon/popsyn/Moes_distributions.py
index df82196..30f29b2 100644
--- a/posydon/popsyn/Moes_distributions.py
+++ b/posydon/popsyn/Moes_distributions.py
@@ -428,6 +428,10 @@ class Moe_17_PsandQs():
             # Given M1, determine the binary star fraction
             if all_binaries:
                 mybinfrac = 1.0
+                # all stars have a companion, hence renormalize the cumulative
+                # period distribution to reach unity
+                mycumPbindist = (self.cumPbindist[:,indM1]
+                                 / np.max(self.cumPbindist[:,indM1])).flatten
             else:
                 mybinfrac = np.max(mycumPbindist())
             # Generate random number myrand between 0 and 1
-- 
2.43.0


From 5cfb5125055179613dc1e48a94d78da533c44fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:02 +0000
Subject: [PATCH 083/118] fix: Moe+17 sampling uses the RNG and the period
 range of the call

The generator of the first call was reused with its random number
generator and orbital period range, hence the draws of a population
depended on the ones sampled before in the same process.
---
 posydon/popsyn/independent_sample.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/independent_sample.py b/posydon/popsyn/independent_sample.py
index 21f36e1..c2f8745 100644
--- a/posydon/popsyn/independent_sample.py
+++ b/posydon/popsyn/independent_sample.py
@@ -53,8 +53,16 @@ def generate_independent_samples(orbital_scheme='period', **kwargs):
     if use_Moe_17_PsandQs(orbital_scheme=orbital_scheme, **kwargs): # pragma: no cover
     # this requires an integration test with actual external datafiles. No unit test
         # initialize generator for Moe+17-PsandQs
-        if _gen_Moe_17_PsandQs is None:
+        # (only redo it if the underlying grid changes)
+        settings = {key: kwargs[key] for key in ['n_M1', 'n_logP', 'n_q',
+                                                 'n_e', 'orbital_period_min',
+                                                 'orbital_period_max']
+                    if key in kwargs}
+        if (_gen_Moe_17_PsandQs is None
+            or _gen_Moe_17_PsandQs.settings != settings):
             _gen_Moe_17_PsandQs = Moe_17_PsandQs(**kwargs)
+            _gen_Moe_17_PsandQs.settings = settings
+        _gen_Moe_17_PsandQs.RNG = kwargs.get('RNG', np.random.default_rng())
         # use same defaults as generate_primary_masses
         M1_min = kwargs.get("primary_mass_min", 7)
         M1_max = kwargs.get("primary_mass_max", 120)
-- 
2.43.0


From e64fc394e3798fe53acd37319400d1b5964fe650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:02 +0000
Subject: [PATCH 084/118] fix: Moe+17 sampling gives separations with the
 separation scheme

The orbital periods in days were returned as separations in solar radii.
---
 posydon/popsyn/independent_sample.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/posydon/popsyn/independent_sample.py b/posydon/popsyn/independent_sample.py
index c2f8745..04eaffb 100644
--- a/posydon/popsyn/independent_sample.py
+++ b/posydon/popsyn/independent_sample.py
@@ -70,6 +70,15 @@ def generate_independent_samples(orbital_scheme='period', **kwargs):
         m2_set, orbital_scheme_set, eccentricity_set, metallicity_set\
          = _gen_Moe_17_PsandQs(m1_set, M_min=M1_min, M_max=M1_max,
                                all_binaries=False)
+        if orbital_scheme == 'separation':
+            from posydon.utils.common_functions import (
+                orbital_separation_from_period,
+            )
+            orbital_scheme_set = orbital_separation_from_period(
+                orbital_scheme_set, m1_set, m2_set)
+        elif orbital_scheme != 'period':
+            raise ValueError("Allowed orbital schemes are separation or"
+                             " period.")
 
         ecc_scheme = kwargs.get('eccentricity_scheme', 'zero')
         if ecc_scheme != 'Moe+17-PsandQs':
-- 
2.43.0


From eaa3b5230beacd3ad3188410b51f1099c5a0a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:40 +0000
Subject: [PATCH 085/118] fix: Moe+17 distributions failed with periods
 slightly above 2 days

If an orbital period of the grid is slightly above 2 days no eccentricity
of the grid may fall into the turnover close to the maximum eccentricity.
---
 posydon/popsyn/Moes_distributions.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/posydon/popsyn/Moes_distributions.py b/posydon/popsyn/Moes_distributions.py
index 30f29b2..99677fc 100644
--- a/posydon/popsyn/Moes_distributions.py
+++ b/posydon/popsyn/Moes_distributions.py
@@ -294,15 +294,16 @@ class Moe_17_PsandQs():
                     eta = eta_7
                 # Given eta at the specified M1 and P, tabulate eccentricity
                 # distribution
-                if(10**mylogP <= 2.0):
-                    # For P < 2 days, assume all systems are close to circular
+                # maximum eccentricity for given P
+                e_max = 1.0 - (10**mylogP/2.0)**(-2.0/3.0)
+                if(e_max <= self.ev[1]):
+                    # For P < 2 days (or slightly above, where the eccentricity
+                    # is limited to values below the resolution), assume all systems are close to circular
                     # For adopted ev (spacing and minimum value), eta = -3.2
                     # satisfies this
                     fe = self.ev**(-3.2)
                 else:
                     fe = self.ev**eta
-                    # maximum eccentricity for given P
-                    e_max = 1.0 - (10**mylogP/2.0)**(-2.0/3.0)
                     # set distribution = 0 for e > e_max
                     fe[self.ev >= e_max] = 0.0
                     # Assume e distribution has power-law slope eta for
@@ -311,9 +312,11 @@ class Moe_17_PsandQs():
                     # at e / e_max = 0.8 and zero at e = e_max
                     ind = np.flatnonzero((self.ev >= 0.8*e_max)
                                          & (self.ev <= 1.0*e_max))
-                    ind_cont = np.min(ind) - 1
-                    fe[ind] = np.interp(self.ev[ind], [0.8*e_max,1.0*e_max],
-                                        [fe[ind_cont],0.0])
+                    if len(ind) > 0:
+                        ind_cont = np.min(ind) - 1
+                        fe[ind] = np.interp(self.ev[ind],
+                                            [0.8*e_max,1.0*e_max],
+                                            [fe[ind_cont],0.0])
                 # cumulative distribution
                 cumfe = np.cumsum(fe) - fe[0]
                 # normalize cumfe(e=e_max) = 1
-- 
2.43.0


From 918947d4b2a4b6f69b89ba3af8dcbd5416ded070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:11 +0000
Subject: [PATCH 086/118] fix: convective turnover time recorded in years by
 the detached step

The MESA steps record conv_env_turnover_time_l_b in seconds, the detached
step took the value in years of its tracks, so the column mixed two units.
---
 posydon/binary_evol/DT/step_detached.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index f8abbe7..af61fc5 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -686,6 +686,10 @@ class detached_step:
 
                     history = zero_negative_values(history, key)
 
+                elif (key in ["conv_env_turnover_time_l_b"] and obj != binary):
+                    # the tracks hold it in years, the star in seconds
+                    history = interp1d[self.translate[key]] * const.secyer
+
                 elif (key in ["log_total_angular_momentum"] and obj != binary):
 
                     tot_j_hist = (interp1d["omega"] / const.secyer) \
-- 
2.43.0


From 28690ae98a3e639995dc560f21f682257557110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:08 +0000
Subject: [PATCH 087/118] fix: wind velocity of Bondi-Hoyle accretion used the
 last row for all rows

With the scheme Kudritzki+2000 and several rows of a history, all rows got
the terminal velocity factor of the last one.
---
 posydon/utils/common_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index 404a53d..1a756cf 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -606,13 +606,14 @@ def bondi_hoyle(binary, accretor, donor, idx=-1, wind_disk_criteria=True,
 
     # Kudritzki, R.-P., & Puls, J. 2000, ARA&A, 38, 613
     elif scheme == 'Kudritzki+2000':
+        f_m = np.empty_like(sep)
         for i in range(len(m)):
             if Teff[i] >= 21000:
-                f_m = 2.65
+                f_m[i] = 2.65
             elif Teff[i] <= 10000:
-                f_m = 1.0
+                f_m[i] = 1.0
             else:
-                f_m = 1.4
+                f_m[i] = 1.4
 
     v_esc = np.sqrt(2 * G * m * Msun / (radius * Rsun))     # m/s
     v_wind = v_esc * f_m                                    # m/s
-- 
2.43.0


From 59b696428b7b58ceae7e9a33efc779a6705c3e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:08 +0000
Subject: [PATCH 088/118] fix: Eddington limit of several rows was that of the
 last row

---
 posydon/utils/common_functions.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index 1a756cf..001a32b 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -424,6 +424,8 @@ def eddington_limit(binary, idx=-1):
         np.asanyarray([*donor.surface_h1_history, donor.surface_h1],
                       dtype=float)[idx])
 
+    mdot_edd = np.empty_like(m_acc)
+    eta = np.empty_like(m_acc)
     for i in range(len(state_acc)):
         if state_acc[i] is None:
             if any(j == 'NS' for j in accretor.state_history):
@@ -441,18 +443,21 @@ def eddington_limit(binary, idx=-1):
             r_isco = 6 #TODO: get r_isco as input/calculate from spin
             # m_ini is the accretor mass at zero spin
             m_ini = m_acc[i] * np.sqrt(r_isco / 6)
-            eta = 1 - np.sqrt(1 - (min(m_acc[i],
-                                       np.sqrt(6) * m_ini) / (3 * m_ini))**2)
+            eta[i] = 1 - np.sqrt(1 - (min(m_acc[i], np.sqrt(6) * m_ini)
+                                      / (3 * m_ini))**2)
         else:
             # 1.25 * 10**6 cm
             acc_radius = CO_radius(m_acc[i], state_acc[i]) * const.Rsun
-            eta = const.standard_cgrav*m_acc[i]/(acc_radius*const.clight**2)
+            eta[i] = const.standard_cgrav*m_acc[i]/(acc_radius*const.clight**2)
 
         # This is the mass accretion rate corresponding to the
         # Eddington luminosity, L_edd = eta * mdot_edd * clightˆ2 (cgs units)
-        mdot_edd = (4 * np.pi * const.standard_cgrav * m_acc[i]
-                    / (0.2 * (1 + surface_h1[i]) * eta * const.clight))
-    return mdot_edd / (const.msol / const.secyer), eta
+        mdot_edd[i] = (4 * np.pi * const.standard_cgrav * m_acc[i]
+                       / (0.2 * (1 + surface_h1[i]) * eta[i] * const.clight))
+    mdot_edd = mdot_edd / (const.msol / const.secyer)
+    if len(state_acc) == 1:
+        return mdot_edd[0], eta[0]
+    return mdot_edd, eta
 
 
 def beaming(binary):
-- 
2.43.0


From c87060b69b20fca8e7d7a6876fccfc2604b3d124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:04 +0000
Subject: [PATCH 089/118] fix: refuse a file without samples instead of looping
 forever

get_samples_from_file and get_kick_samples_from_file repeat the content of
the file until there are enough binaries, which never ends for a file
without any rows.
---
 posydon/popsyn/sample_from_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/posydon/popsyn/sample_from_file.py b/posydon/popsyn/sample_from_file.py
index f186096..7b82997 100644
--- a/posydon/popsyn/sample_from_file.py
+++ b/posydon/popsyn/sample_from_file.py
@@ -104,6 +104,8 @@ def get_samples_from_file(orbital_scheme='', **kwargs):
 
     # Get number of data frame entries
     set_n = len(df)
+    if set_n == 0:
+        raise ValueError(f'{filename} contains no samples!')
 
     # Get eccentricities
     key = infer_key(available_keys=df.keys(), allowed_keys=ECCENTRICITY_NAMES)
@@ -214,6 +216,8 @@ def get_kick_samples_from_file(**kwargs):
 
     # Get number of data frame entries
     set_n = len(df)
+    if set_n == 0:
+        raise ValueError(f'{filename} contains no samples!')
 
     ## Get primary kick
     # Velocity
-- 
2.43.0


From 2421146a93124fee6266692d92e8f1f61606746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:25 +0000
Subject: [PATCH 090/118] fix: caught warnings were told apart by category only

While warnings are caught the filter looked one frame too low, hence the
place of every warning was the line in Pwarn: with the default filter only
the first warning of a category was recorded, those issued at other places
got lost.
---
 posydon/utils/posydonwarning.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/posydon/utils/posydonwarning.py b/posydon/utils/posydonwarning.py
index 9fab546..4834cef 100644
--- a/posydon/utils/posydonwarning.py
+++ b/posydon/utils/posydonwarning.py
@@ -427,9 +427,12 @@ class _Caught_POSYDON_Warnings:
             if self.catch_warnings:
                 # Catch warning
                 if self.filter_first:
-                    # Apply POSYDON filtering/stats
-                    new_warning = _apply_POSYDON_filter(new_warning,
-                                                        self.registry)
+                    # Apply POSYDON filtering/stats: there is one frame more
+                    # between the filter and the origin of the warning
+                    located = dict(new_warning)
+                    located["stacklevel"] = located.get("stacklevel", 0) + 1
+                    if _apply_POSYDON_filter(located, self.registry) is None:
+                        new_warning = None
                 if self.record and new_warning is not None:
                     # Add warning to caught ones
                     self.caught_warnings.append(new_warning)
-- 
2.43.0


From 956c55cf02b45919f1023680723ba864f7567d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:21 +0000
Subject: [PATCH 091/118] fix: compress MESA files below folders with spaces or
 other special characters

The path was handed unquoted to a shell: files below such folders stayed
uncompressed, and other commands could be run by names of folders.
---
 posydon/utils/compress_mesa_files.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/posydon/utils/compress_mesa_files.py b/posydon/utils/compress_mesa_files.py
index 29129c6..54b60ab 100644
--- a/posydon/utils/compress_mesa_files.py
+++ b/posydon/utils/compress_mesa_files.py
@@ -264,7 +264,9 @@ def compress_dir(args):
             if os.path.isfile(os.path.join(folder, compress_file)):
                 if args.debug:
                     print("compress:", os.path.join(folder, compress_file))
-                os.system(f"gzip -1 {os.path.join(folder, compress_file)}")
+                # no shell: paths may contain any character
+                os.spawnlp(os.P_WAIT, "gzip", "gzip", "-1", "--",
+                           os.path.join(folder, compress_file))
             else: #pragma: no cover
                 raise FileNotFoundError(f"{os.path.join(folder, remove_file)}"
                                         " is not a file.")
-- 
2.43.0


From 7ee388a17c7c3e03eecba02e2eb70b7dd28ea73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:31 +0000
Subject: [PATCH 092/118] fix: checks after training used the other kind of
 interpolator

---
 bin/posydon-setup-pipeline | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/posydon-setup-pipeline b/bin/posydon-setup-pipeline
index d6eeac5..8b18c2d 100644
--- a/bin/posydon-setup-pipeline
+++ b/bin/posydon-setup-pipeline
@@ -1067,13 +1067,13 @@ def create_csv(GRID_TYPES=[],
                                                   metallicity, compression,
                                                   grid_s+'.h5'))
                                     if method != '': # if there is a method
-                                        if 'step_4' not in step_name:
+                                        if 'step_4' in step_name:
                                             interpolators.append(os.path.join(
                                                 PATH_TO_GRIDS, grid_type,
                                                 VERSION, metallicity,
                                                 'interpolation_objects',
                                                 'IF_'+method+RLO+'.pkl'))
-                                        elif 'step_5' not in step_name:
+                                        elif 'step_5' in step_name:
                                             interpolators.append(os.path.join(
                                                 PATH_TO_GRIDS, grid_type,
                                                 VERSION, metallicity,
-- 
2.43.0


From e0675197615fa4e7e8c346322ca26b1cac99898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:31 +0000
Subject: [PATCH 093/118] fix: directory for the logs of additions to a step
 which is off

---
 bin/posydon-setup-pipeline | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/posydon-setup-pipeline b/bin/posydon-setup-pipeline
index 8b18c2d..040c330 100644
--- a/bin/posydon-setup-pipeline
+++ b/bin/posydon-setup-pipeline
@@ -509,7 +509,11 @@ class PostProcessingPipeline:
             os.makedirs(logs_path)
         # create sub directories for each step
         for action, step_number in ACTION_TO_STEP_NUM.items():
-            if ((action in setup_kwargs.keys()) and setup_kwargs[action]):
+            # additions have their logs in the directory of their step
+            step_kwargs = self.pipeline_kwargs.get(step_number, {})
+            if (((action in setup_kwargs.keys()) and setup_kwargs[action])
+                or any(step_kwargs.get(sub_step)
+                       for sub_step in SUB_STEPS_TO_EXTENSION)):
                 step_log_path = os.path.join(logs_path, step_number)
                 if not os.path.isdir(step_log_path):
                     os.makedirs(step_log_path)
-- 
2.43.0


From 6a1ee1262354e68d69cfdbea1ce4558a551b00c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:19 +0000
Subject: [PATCH 094/118] fix: wait for MESA and keep its output with every
 shell

os.system uses /bin/sh, which need not know bash's '&>': dash takes it for
starting MESA in the background, so the clean up and the moving of the output
did not wait for MESA, and nothing MESA printed was kept.
---
 bin/posydon-run-grid | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/posydon-run-grid b/bin/posydon-run-grid
index fecdf11..e5bd13e 100755
--- a/bin/posydon-run-grid
+++ b/bin/posydon-run-grid
@@ -488,7 +488,7 @@ def run_mesa(mesa_executable, work_dir, final_dir, **kwargs):
         child_ID = 0.1
     if child_ID>0:
         #parent process: run MESA and do the clean up in the working directory
-        os.system("{0} &> {1}".format(mesa_executable, os.path.join(work_dir, outfile_name)))
+        os.system("{0} > {1} 2>&1".format(mesa_executable, os.path.join(work_dir, outfile_name)))
 
         if not keep_profiles:
             if os.path.exists(os.path.join(work_dir, 'LOGS')):
-- 
2.43.0


From a3f472647b1c617c8c1e8ff7b1f5f039e9a52af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:23 +0000
Subject: [PATCH 095/118] fix: values of a grid for the binary_job section were
 never read by MESA

---
 bin/posydon-run-grid | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bin/posydon-run-grid b/bin/posydon-run-grid
index e5bd13e..5f72d0d 100755
--- a/bin/posydon-run-grid
+++ b/bin/posydon-run-grid
@@ -237,14 +237,18 @@ def create_binary_inlists(binary_controls, binary_job,
 / ! end of controls namelist
                         """.format(binary_inlist_project)
 
+    # the namelist is only in inlist_grid_points if the grid has values for it
+    binary_job_grid_str = """      read_extra_binary_job_inlist2 = .true.
+      extra_binary_job_inlist2_name = 'inlist_grid_points'
+""" if binary_job else ""
     binary_job_str = """
 &binary_job
 
       read_extra_binary_job_inlist1 = .true.
       extra_binary_job_inlist1_name = '{0}'
-
+{1}
 / ! end of job namelist
-                        """.format(binary_inlist_project)
+                        """.format(binary_inlist_project, binary_job_grid_str)
 
     filename = os.path.join(work_dir, 'inlist')
     if os.path.exists(filename):
-- 
2.43.0


From 5f5c10f1c6d60621f5a53b680f8493079f07db5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:23 +0000
Subject: [PATCH 096/118] fix: further steps of forming a star ran the second
 one again

---
 bin/posydon-run-grid | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/posydon-run-grid b/bin/posydon-run-grid
index 5f72d0d..d8d5037 100755
--- a/bin/posydon-run-grid
+++ b/bin/posydon-run-grid
@@ -758,6 +758,8 @@ def run_grid_point(grid, star1_formation, star2_formation,
                 create_star_formation(grid_param_dict['m1'], work_dir, inlist_step)
             elif index == 1:
                 create_star_formation(grid_param_dict['m1'], work_dir, inlist_step, grid_param_dict['initial_z'], True)
+            else:
+                create_star_formation(grid_param_dict['m1'], work_dir, inlist_step)
             run_mesa(args.mesa_star1_executable, work_dir, final_dir, keep_work_dir=True,
                      outfile_name='out_star1_formation_step{0}.txt'.format(index))
 
@@ -772,6 +774,8 @@ def run_grid_point(grid, star1_formation, star2_formation,
                 create_star_formation(grid_param_dict['m2'], work_dir, inlist_step)
             elif index == 1:
                 create_star_formation(grid_param_dict['m2'], work_dir, inlist_step, grid_param_dict['initial_z'], True)
+            else:
+                create_star_formation(grid_param_dict['m2'], work_dir, inlist_step)
             run_mesa(args.mesa_star2_executable, work_dir, final_dir, keep_work_dir=True,
                      outfile_name='out_star2_formation_step{0}.txt'.format(index))
 
-- 
2.43.0


From 99f1853ea7f81d6ef0f8885ce16d24bf3304a675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:51 +0000
Subject: [PATCH 097/118] fix: stack the inlists of the user on top of those of
 a scenario

---
 bin/posydon-setup-grid | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/bin/posydon-setup-grid b/bin/posydon-setup-grid
index f6978f5..19e83e4 100755
--- a/bin/posydon-setup-grid
+++ b/bin/posydon-setup-grid
@@ -212,12 +212,12 @@ def find_inlist_from_scenario(source, gitcommit, system_type):
                   "{1}".format(system_type, inlists_location))
 
             if os.path.isfile(os.path.join(inlists_location, "binary", "inlist1")):
-                mesa_inlists['star1_controls_user'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist1"))
-                mesa_inlists['star1_job_user'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist1"))
+                mesa_inlists['star1_controls_posydon_scenario'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist1"))
+                mesa_inlists['star1_job_posydon_scenario'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist1"))
 
             if os.path.isfile(os.path.join(inlists_location, "binary", "inlist2")):
-                mesa_inlists['star2_controls_user'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist2"))
-                mesa_inlists['star2_job_user'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist2"))
+                mesa_inlists['star2_controls_posydon_scenario'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist2"))
+                mesa_inlists['star2_job_posydon_scenario'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist2"))
 
             # check for star formation parameters
             if os.path.isdir(os.path.join(inlists_location, "star1_formation")):
@@ -249,16 +249,16 @@ def find_inlist_from_scenario(source, gitcommit, system_type):
 
             # determine where the binary inlist(s) are
             if os.path.isfile(os.path.join(inlists_location, "binary", "inlist_project")):
-                mesa_inlists['binary_controls_user'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist_project"))
-                mesa_inlists['binary_job_user'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist_project"))
+                mesa_inlists['binary_controls_posydon_scenario'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist_project"))
+                mesa_inlists['binary_job_posydon_scenario'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist_project"))
 
             if os.path.isfile(os.path.join(inlists_location, "binary", "inlist1")):
-                mesa_inlists['star1_controls_user'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist1"))
-                mesa_inlists['star1_job_user'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist1"))
+                mesa_inlists['star1_controls_posydon_scenario'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist1"))
+                mesa_inlists['star1_job_posydon_scenario'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist1"))
 
             if os.path.isfile(os.path.join(inlists_location, "binary", "inlist2")):
-                mesa_inlists['star2_controls_user'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist2"))
-                mesa_inlists['star2_job_user'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist2"))
+                mesa_inlists['star2_controls_posydon_scenario'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist2"))
+                mesa_inlists['star2_job_posydon_scenario'] = '{0}'.format(os.path.join(inlists_location, "binary", "inlist2"))
 
             if os.path.isfile(os.path.join(inlists_location, "history_columns.list")):
                 mesa_inlists['star_history_columns'] = os.path.join(inlists_location, "history_columns.list")
@@ -391,6 +391,14 @@ def construct_static_inlist(mesa_inlists, grid_parameters, working_directory=os.
     Returns:
         inlists
     """
+    # Stack the inlists in their order, however the inifile and the scenario
+    # list them: inlists of the user are on top of those of POSYDON and MESA
+    layers = ['mesa_defaults', 'posydon_defaults', 'posydon_scenario', 'user',
+              'special']
+    mesa_inlists = dict(sorted(mesa_inlists.items(), key=lambda item: max(
+        [i for i, layer in enumerate(layers) if item[0].endswith(layer)],
+        default=-1)))
+
     # To make it backwards compatible
     if 'zams_filename' in mesa_inlists.keys():
         mesa_inlists['zams_filename_1'] = mesa_inlists['zams_filename']
-- 
2.43.0


From 8eaa4bfdfe2ffff0b7b01d6ed0bae43dc6a91bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:28 +0000
Subject: [PATCH 098/118] fix: map class IDs to class names for integer classes
 in psy-cris

---
 posydon/active_learning/psy_cris/data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/posydon/active_learning/psy_cris/data.py b/posydon/active_learning/psy_cris/data.py
index e4badca..aed4908 100644
--- a/posydon/active_learning/psy_cris/data.py
+++ b/posydon/active_learning/psy_cris/data.py
@@ -327,16 +327,17 @@ class TableData:
         # mapping dict - forward & backward
         self._class_id_mapping_ = OrderedDict()
         for i in self.class_ids:
-            self._class_id_mapping_[i] = self._unique_class_keys_[i]
             self._class_id_mapping_[self._unique_class_keys_[i]] = i
+        # with integer class names an ID always maps to its class
+        for i in self.class_ids:
+            self._class_id_mapping_[i] = self._unique_class_keys_[i]
 
         # classification column replaced with class_id
         self._class_col_ = self._full_data_[class_col_name].values.astype(
             self._class_dtype_
         )
-        self._class_col_to_ids_ = []
-        for cl in self._class_col_:
-            self._class_col_to_ids_.append(self._class_id_mapping_[cl])
+        self._class_col_to_ids_ = list(np.searchsorted(
+            self._unique_class_keys_, self._class_col_))
 
         if my_colors is not None:
             self._class_colors_ = my_colors
-- 
2.43.0


From 69863d4e16d1a4ba366ce729e058440ed1c166ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:28 +0000
Subject: [PATCH 099/118] fix: label average percent changes with their number
 of neighbors

---
 posydon/active_learning/psy_cris/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/active_learning/psy_cris/data.py b/posydon/active_learning/psy_cris/data.py
index aed4908..d22c9ef 100644
--- a/posydon/active_learning/psy_cris/data.py
+++ b/posydon/active_learning/psy_cris/data.py
@@ -487,7 +487,7 @@ class TableData:
                             my_kwargs = OrderedDict()
                             for i in range(np.shape(avg_p_change)[0]):
                                 new_col_str = "APC{0}_{1}".format(
-                                    self._n_neighbors_[i], _key
+                                    list(where_nearest_neighbors)[i], _key
                                 )
                                 self.__vb_helper(verbose, "\t" + new_col_str)
                                 my_kwargs[new_col_str] = avg_p_change[i]
-- 
2.43.0


From 39f9b3f93faef92b93127386efee7bd0863ea962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:28 +0000
Subject: [PATCH 100/118] fix: leave the trained classifiers in use after a
 failed cross validation

---
 posydon/active_learning/psy_cris/classify.py | 51 ++++++++++----------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/posydon/active_learning/psy_cris/classify.py b/posydon/active_learning/psy_cris/classify.py
index d0d5390..6ef4e12 100644
--- a/posydon/active_learning/psy_cris/classify.py
+++ b/posydon/active_learning/psy_cris/classify.py
@@ -602,8 +602,6 @@ class Classifier:
             the order of classifier_names.
 
         """
-        self.__train_cross_val = True
-
         (
             train_data_indicies,
             cv_test_input_data,
@@ -621,29 +619,33 @@ class Classifier:
                 )
             )
 
-        time_to_train = []
-        # Train classifiers
-        start_time = time.time()
-        for name in classifier_names:
-            self.train(name, di=train_data_indicies)
-            time_to_train.append(time.time() - start_time)
-
-        predicted_class_ids = []
-        where_not_nans_holder = []
-        num_corr_holder = []
-        # Test classification
-        for name in classifier_names:
-            pred_ids, probs, where_not_nan = self.get_class_predictions(
-                name, cv_test_input_data
-            )
+        try:
+            self.__train_cross_val = True
+            time_to_train = []
+            # Train classifiers
+            start_time = time.time()
+            for name in classifier_names:
+                self.train(name, di=train_data_indicies)
+                time_to_train.append(time.time() - start_time)
+
+            predicted_class_ids = []
+            where_not_nans_holder = []
+            num_corr_holder = []
+            # Test classification
+            for name in classifier_names:
+                pred_ids, probs, where_not_nan = self.get_class_predictions(
+                    name, cv_test_input_data
+                )
 
-            predicted_class_ids.append(pred_ids)
-            where_not_nans_holder.append(where_not_nan)
-            # pred_ids already has nans omitted...
-            # the output data needs to have those removed...
-            num_correct = np.sum(
-                pred_ids == cv_test_output_data[where_not_nan])
-            num_corr_holder.append(num_correct)
+                predicted_class_ids.append(pred_ids)
+                where_not_nans_holder.append(where_not_nan)
+                # pred_ids already has nans omitted...
+                # the output data needs to have those removed...
+                num_correct = np.sum(
+                    pred_ids == cv_test_output_data[where_not_nan])
+                num_corr_holder.append(num_correct)
+        finally:
+            self.__train_cross_val = False
 
         percent_correct = []
         for j in range(len(num_corr_holder)):
@@ -663,7 +665,6 @@ class Classifier:
                 )
             print("")
 
-        self.__train_cross_val = False
         return np.array(percent_correct), np.array(time_to_train)
 
     def make_cv_plot_data(self, interp_type, alphas, N_iterations,
-- 
2.43.0


From 755d3e658f99154e49ae0f29803dc359ef048e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:28 +0000
Subject: [PATCH 101/118] fix: allow classes without regression data in the
 psy-cris Regressor

---
 posydon/active_learning/psy_cris/regress.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/posydon/active_learning/psy_cris/regress.py b/posydon/active_learning/psy_cris/regress.py
index 5eb1ec3..d728811 100644
--- a/posydon/active_learning/psy_cris/regress.py
+++ b/posydon/active_learning/psy_cris/regress.py
@@ -70,6 +70,8 @@ class Regressor:
         max_apc_vals = []
         apc_dfs_per_class = self.regr_dfs_per_class.copy()
         for key, val in apc_dfs_per_class.items():
+            if not isinstance(val, pd.DataFrame):
+                continue  # no regression data in this class
             non_APC_cols = [i for i in val.columns if "APC" not in i]
             if len(non_APC_cols) == len(val.columns):
                 continue  # no APC cols to work on
-- 
2.43.0


From 749b30dea583524c428d207627814db510fb4ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:28 +0000
Subject: [PATCH 102/118] fix: no prediction where the training of a linear
 regressor was skipped

---
 posydon/active_learning/psy_cris/regress.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/posydon/active_learning/psy_cris/regress.py b/posydon/active_learning/psy_cris/regress.py
index d728811..f64614c 100644
--- a/posydon/active_learning/psy_cris/regress.py
+++ b/posydon/active_learning/psy_cris/regress.py
@@ -592,6 +592,10 @@ class Regressor:
             else:
                 pred = interp.predict(test_input)
         elif regressor_key == "LinearNDInterpolator":
+            # training skipped, not enough points
+            if interp is None:
+                return None
+
             pred = interp(test_input)
         else:
             print("Name not recognized: {0}".format(regressor_name))
-- 
2.43.0


From 4c669bfe984d620db5dfd84cb24c20207a5365b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:28 +0000
Subject: [PATCH 103/118] fix: negligible target distribution where there is no
 classification

---
 posydon/active_learning/psy_cris/sample.py | 27 ++++++++++++----------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/posydon/active_learning/psy_cris/sample.py b/posydon/active_learning/psy_cris/sample.py
index 5796656..31763cc 100644
--- a/posydon/active_learning/psy_cris/sample.py
+++ b/posydon/active_learning/psy_cris/sample.py
@@ -101,7 +101,8 @@ class Sampler:
         Returns
         -------
         max_probs : array
-            Maximum probabilities at each query point
+            Maximum probabilities at each query point (nan where there is no
+            classification)
         position : array
             Position in parameter space being queried
         cls_key : array
@@ -122,17 +123,18 @@ class Sampler:
         max_probs = np.max(normalized_probs, axis=1)
         cls_key = np.argmax(normalized_probs, axis=1)
         position = np.array(position)
+        max_probs = np.where(max_probs == 1, 1-1e-16, max_probs)
         if len(where_nan) > 0:
-            max_probs = np.zeros(position.shape[0]) + 1e-16
-            cls_key = [None] * position.shape[0]
-            if TD_verbose:
-                print('\t', max_probs, position, cls_key)
-            return max_probs, position, cls_key
-        else:
-            max_probs = np.where(max_probs == 1, 1-1e-16, max_probs)
-            if TD_verbose:
-                print('\t', max_probs, position, cls_key)
-            return max_probs, position, cls_key
+            # no classification at these positions
+            all_max_probs = np.full(position.shape[0], np.nan)
+            all_cls_key = np.full(position.shape[0], None)
+            if len(where_not_nan) > 0:
+                all_max_probs[where_not_nan] = max_probs
+                all_cls_key[where_not_nan] = cls_key
+            max_probs, cls_key = all_max_probs, all_cls_key
+        if TD_verbose:
+            print('\t', max_probs, position, cls_key)
+        return max_probs, position, cls_key
 
     def TD_classification(self, classifier_name, position, **kwargs):
         r"""Target distribution using classification.
@@ -167,7 +169,8 @@ class Sampler:
         )
 
         theoretical_max_TD_cls_term = 1 - 1 / self._TableData_.num_classes
-        return ((1 - max_probs) * 1 / theoretical_max_TD_cls_term) ** (TD_BETA)
+        target = ((1 - max_probs) / theoretical_max_TD_cls_term) ** (TD_BETA)
+        return np.where(np.isnan(max_probs), 1e-16, target)
 
     def TD_classification_regression(self, names, args, **kwargs):
         r"""Target distribution using both classification & regression.
-- 
2.43.0


From 662f0fb7bed7ddcc5c4e46fc0ca55e31e6f05947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:28 +0000
Subject: [PATCH 104/118] fix: propose points without the training data in
 psy-cris

---
 posydon/active_learning/psy_cris/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/active_learning/psy_cris/sample.py b/posydon/active_learning/psy_cris/sample.py
index 31763cc..2473d1d 100644
--- a/posydon/active_learning/psy_cris/sample.py
+++ b/posydon/active_learning/psy_cris/sample.py
@@ -644,7 +644,7 @@ class Sampler:
         else:
             original_training_data = []
         how_many_training_data = len(original_training_data)
-        n_dim = len(original_training_data[0])
+        n_dim = len(step_history[0])
         # approximate scaling of the variance given a set of N proposal points
         # the filling factor Kappa is not generally known a priori
         if var_mult is None:
-- 
2.43.0


From a184c7e8a5b5470e12b23611bbf5c12fe1559317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:28 +0000
Subject: [PATCH 105/118] fix: do not alter the settings given to
 get_new_query_points

---
 posydon/active_learning/psy_cris/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/posydon/active_learning/psy_cris/utils.py b/posydon/active_learning/psy_cris/utils.py
index 04947a4..6aa86bd 100644
--- a/posydon/active_learning/psy_cris/utils.py
+++ b/posydon/active_learning/psy_cris/utils.py
@@ -103,6 +103,10 @@ def get_new_query_points(N_new_points=1, TableData_kwargs={},
         classifier.
 
     """
+    # keep the settings of the caller as they are
+    Regressor_kwargs = dict(Regressor_kwargs)
+    Sampler_kwargs = dict(Sampler_kwargs)
+
     # TableData
     table_obj = TableData(**TableData_kwargs)
 
@@ -176,7 +180,7 @@ def get_new_query_points(N_new_points=1, TableData_kwargs={},
         proposed_points = np.array(random.sample(
             list(good_points_in_posterior), N_new_points))
 
-        pred_class = cls_obj.get_class_predictions(
+        pred_class, max_probs, where_not_nan = cls_obj.get_class_predictions(
             classifier_name, proposed_points, return_ids=False)
         return proposed_points, pred_class
 
-- 
2.43.0


From 73e4af895c205af78c664b0c6f934702c2ed5602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:28 +0000
Subject: [PATCH 106/118] fix: scale small class proposals with the distance to
 the neighbors

---
 posydon/active_learning/psy_cris/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/active_learning/psy_cris/utils.py b/posydon/active_learning/psy_cris/utils.py
index 6aa86bd..c7568c6 100644
--- a/posydon/active_learning/psy_cris/utils.py
+++ b/posydon/active_learning/psy_cris/utils.py
@@ -253,7 +253,7 @@ def do_small_class_proposal(table_data, n_neighbors, n_new_points=1,
         closest_indi = (indicies.T[1:]).T
 
         closest_points = table_data._input_.iloc[closest_indi[0]].values
-        length_scale = np.abs(np.mean(closest_points, axis=0))
+        length_scale = np.mean(np.abs(closest_points - input_point), axis=0)
 
         new_points = np.random.normal(loc=input_point,
                                       scale=length_scale * length_scale_mult,
-- 
2.43.0


From 76e365666725c3bdf9772d6e63296c0a2114b6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:28 +0000
Subject: [PATCH 107/118] fix: train on all the sampled points in
 do_dynamic_sampling

---
 posydon/active_learning/psy_cris/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/posydon/active_learning/psy_cris/utils.py b/posydon/active_learning/psy_cris/utils.py
index c7568c6..2e7c508 100644
--- a/posydon/active_learning/psy_cris/utils.py
+++ b/posydon/active_learning/psy_cris/utils.py
@@ -310,7 +310,8 @@ def do_dynamic_sampling(N_final_points=100, new_points_per_iter=20,
     """
     t0 = time.time()
 
-    original_kwargs = copy.deepcopy(all_kwargs)  # !!!
+    original_kwargs = all_kwargs
+    all_kwargs = copy.deepcopy(original_kwargs)  # !!!
 
     # analytic classification and regression data set
     my_data = get_regular_grid_df(N_starting_points, jitter=jitter, dim=dim)
@@ -354,7 +355,6 @@ def do_dynamic_sampling(N_final_points=100, new_points_per_iter=20,
 
         # Update dicts
         all_kwargs["TableData_kwargs"]["file_path_list"] = None
-        all_kwargs["TableData_kwargs"]["my_DataFrame"] = my_data
         if dim == 2:
             random_init_pos = np.random.uniform(low=-2, high=2, size=(2))
         elif dim == 3:
@@ -379,10 +379,12 @@ def do_dynamic_sampling(N_final_points=100, new_points_per_iter=20,
         elif dim == 3:
             output_new_points_df = get_output_3D(*new_points.T)
 
-        new_data = my_data.append(output_new_points_df, ignore_index=True)
+        new_data = pd.concat([my_data, output_new_points_df],
+                             ignore_index=True)
         # Append data to be returned
         dfs_per_iters.append(new_data)
         my_data = new_data.copy()
+        all_kwargs["TableData_kwargs"]["my_DataFrame"] = my_data
         # Append data to be returned
         preds_per_iter.append(cls_preds)
 
-- 
2.43.0


From ab2382b4e91bc07a50f81f0a6efd7e1227ccd9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:28 +0000
Subject: [PATCH 108/118] fix: compare predicted with true classes of the 2D
 synthetic data

---
 posydon/active_learning/psy_cris/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/posydon/active_learning/psy_cris/utils.py b/posydon/active_learning/psy_cris/utils.py
index 2e7c508..d59a608 100644
--- a/posydon/active_learning/psy_cris/utils.py
+++ b/posydon/active_learning/psy_cris/utils.py
@@ -760,11 +760,9 @@ def get_prediction_diffs(training_df, classifier_name="linear",
         if verbose:
             print(">>> Nans found: {}".format(len(where_nan)))
             print(stacked_points[where_nan])
-            pred_class, max_probs, where_not_nan = \
-                cls_obj.get_class_predictions(classifier_name,
-                                              stacked_points[where_nan],
-                                              return_ids=False)
-            print(pred_class, max_probs, where_not_nan)
+            print(*cls_obj.get_class_predictions(classifier_name,
+                                                 stacked_points[where_nan],
+                                                 return_ids=False))
 
         new_pred_class = np.empty(stacked_points.shape[0], dtype='object')
         new_pred_class[where_not_nan] = pred_class
@@ -806,6 +804,9 @@ def get_prediction_diffs(training_df, classifier_name="linear",
         get_output_func = get_raw_output_3D
 
     true_class_result, true_regr_output = get_output_func(*stacked_points.T)
+    if dim == 2:
+        # the training data has strings as classes
+        true_class_result = get_output_2D(*stacked_points.T)["class"].to_numpy()
 
     # compare the regression predictions to the true values
     # calculate fractional differences
-- 
2.43.0


From cf1d5ee79a362621a4bb2a989e5fb168bb010a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:04 +0000
Subject: [PATCH 109/118] fix: do not alter the grid when plotting
 termination_flag_2

---
 posydon/visualization/plot2D.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/posydon/visualization/plot2D.py b/posydon/visualization/plot2D.py
index 887011e..8d99b47 100644
--- a/posydon/visualization/plot2D.py
+++ b/posydon/visualization/plot2D.py
@@ -239,6 +239,7 @@ class plot2D(object):
             self.add_properties_to_final_values(termination_flag)
         if termination_flag == 'termination_flag_2':
             # remmove ? from strings
+            self.final_values = self.final_values.copy()
             TF2 = self.final_values['termination_flag_2']
             TF2_clean = [TF.replace('?', '') for TF in TF2]
             self.final_values['termination_flag_2'] = TF2_clean
-- 
2.43.0


From ffd28363f117d7a5cca3059ca47d5c20d1ff2388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:57 +0000
Subject: [PATCH 110/118] fix: keep the default plot properties when plotting
 2D figures

---
 posydon/visualization/plot2D.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/posydon/visualization/plot2D.py b/posydon/visualization/plot2D.py
index 8d99b47..19327ad 100644
--- a/posydon/visualization/plot2D.py
+++ b/posydon/visualization/plot2D.py
@@ -196,7 +196,11 @@ class plot2D(object):
                 varname not in ["colorbar", "legend1D", "legend2D"]
                 or varname not in kwargs.keys()
             ):
-                setattr(self, varname, kwargs.get(varname, default_value))
+                value = kwargs.get(varname, default_value)
+                if isinstance(value, dict):
+                    # do not alter the defaults or the user's settings
+                    value = copy.copy(value)
+                setattr(self, varname, value)
             else:
                 temp_var = {}
                 for sub_varname in PLOT_PROPERTIES[varname]:
-- 
2.43.0


From 57e24fa4d0e283fdc57abcad33144c37d65fc6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:22 +0000
Subject: [PATCH 111/118] fix: draw the runs without a color in the panels of
 several slices

---
 posydon/visualization/plot2D.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/posydon/visualization/plot2D.py b/posydon/visualization/plot2D.py
index 19327ad..ece05fa 100644
--- a/posydon/visualization/plot2D.py
+++ b/posydon/visualization/plot2D.py
@@ -1308,7 +1308,10 @@ class plot2D(object):
                     if flag not in self.MARKERS_COLORS_LEGENDS.keys():
                         add_flag_to_MARKERS_COLORS_LEGENDS(
                             self.MARKERS_COLORS_LEGENDS, flag)
-                    if self.MARKERS_COLORS_LEGENDS[flag][2] is not None:
+                    color = self.MARKERS_COLORS_LEGENDS[flag][2]
+                    if color is None and self.z_var is None:
+                        color = 'gray'
+                    if color is not None:
                         if self.slice_at_RLO:
                             for i in range(len(self.x_var[selection])):
                                 if not isinstance(self.x_var_oRLO[selection]
@@ -1335,7 +1338,7 @@ class plot2D(object):
                                                [flag][0],
                                         linewidths=self.MARKERS_COLORS_LEGENDS
                                                    [flag][1],
-                                        c=self.MARKERS_COLORS_LEGENDS[flag][2],
+                                        c=color,
                                         s=self.marker_size,
                                     )
                                 else:
@@ -1352,7 +1355,7 @@ class plot2D(object):
                                                [flag][0],
                                         linewidths=self.MARKERS_COLORS_LEGENDS
                                                    [flag][1],
-                                        c=self.MARKERS_COLORS_LEGENDS[flag][2],
+                                        c=color,
                                         s=self.marker_size,
                                     )
                         else:
@@ -1362,7 +1365,7 @@ class plot2D(object):
                                 marker=self.MARKERS_COLORS_LEGENDS[flag][0],
                                 linewidths=self.MARKERS_COLORS_LEGENDS[flag]
                                            [1],
-                                c=self.MARKERS_COLORS_LEGENDS[flag][2],
+                                c=color,
                                 s=self.marker_size,
                             )
                     else:
-- 
2.43.0


From 55f6974cf88eb1b0f91bc5e8e17d8101a28023a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:22 +0000
Subject: [PATCH 112/118] fix: plot several slices in a single row of panels

---
 posydon/visualization/plot2D.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/visualization/plot2D.py b/posydon/visualization/plot2D.py
index ece05fa..dd18c7a 100644
--- a/posydon/visualization/plot2D.py
+++ b/posydon/visualization/plot2D.py
@@ -402,7 +402,8 @@ class plot2D(object):
             self.n_rows = (self.n_subplots - 1) // self.n_cols + 1
             # create figure and axes
             fig, axs = plt.subplots(nrows=self.n_rows, ncols=self.n_cols,
-                               sharex=True, sharey=True, figsize=self.figsize)
+                               sharex=True, sharey=True, squeeze=False,
+                               figsize=self.figsize)
             l_ax = fig.add_subplot(self.n_rows, self.n_cols, self.legend_pos)
 
             self.plot_panels(axs, l_ax, legend_idxs=l_idxs)
-- 
2.43.0


From 94b8bbe53909a35068868b62fac6e3317bb124e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:22 +0000
Subject: [PATCH 113/118] fix: slice the given z values once for each panel of
 a 2D figure

---
 posydon/visualization/plot2D.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/posydon/visualization/plot2D.py b/posydon/visualization/plot2D.py
index dd18c7a..3602a65 100644
--- a/posydon/visualization/plot2D.py
+++ b/posydon/visualization/plot2D.py
@@ -291,7 +291,7 @@ class plot2D(object):
             if not self.slice_at_RLO:
                 if isinstance(z_var_str, np.ndarray):
                     self.z_var_str = None
-                    self.z_var = z_var_str
+                    self.z_values = z_var_str
                     self.history = False
                     self.binary_history = False
                 elif z_var_str in self.final_values_str:
@@ -794,8 +794,9 @@ class plot2D(object):
         self.get_y_var()
         if self.z_var_str is not None:
             self.get_z_var()
-        elif not hasattr(self, 'z_var'):
-            self.z_var = None
+        else:
+            # values given by the user, if any
+            self.z_var = getattr(self, 'z_values', None)
 
         # if 4D space: slice it to 2D
         if self.grid_4D and self.grid_3D:
-- 
2.43.0


From 9a1f327eb99ff556f191ccce31c9fdf3fdc10a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:22 +0000
Subject: [PATCH 114/118] fix: plot relative changes and the properties of the
 SN models in 2D

---
 posydon/visualization/plot2D.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/posydon/visualization/plot2D.py b/posydon/visualization/plot2D.py
index 3602a65..7456159 100644
--- a/posydon/visualization/plot2D.py
+++ b/posydon/visualization/plot2D.py
@@ -294,7 +294,7 @@ class plot2D(object):
                     self.z_values = z_var_str
                     self.history = False
                     self.binary_history = False
-                elif z_var_str in self.final_values_str:
+                elif self.has_column(z_var_str):
                     self.z_var_str = z_var_str
                     self.history = False
                     self.binary_history = False
@@ -726,6 +726,20 @@ class plot2D(object):
         new_initial_values["Z_Zsun"] = Z_Zsun
         self.initial_values = new_initial_values
 
+    def get_column(self, key):
+        """Get a column of final values, including the ones of SN models."""
+        if key in self.final_values.dtype.names:
+            return self.final_values[key]
+        return _get_grid_column(self.psygrid, key)
+
+    def has_column(self, key):
+        """Whether there is such a column of final values."""
+        try:
+            self.get_column(key)
+        except (KeyError, ValueError):
+            return False
+        return True
+
     def add_properties_to_final_values(self, termination_flag=None):
         """Add extra initial values."""
         old_initial_values = copy.copy(self.initial_values)
@@ -747,7 +761,7 @@ class plot2D(object):
         elif 'relative_change' in self.z_var_str:
             key = self.z_var_str.split('relative_change_')[1]
             relative_change_key = (
-                (_get_grid_column(self.psygrid, key) - old_initial_values[key])
+                (self.get_column(key) - old_initial_values[key])
                 / old_initial_values[key])
             new_final_values = add_field(old_final_values,
                                          [(self.z_var_str, "<f8")])
@@ -787,7 +801,7 @@ class plot2D(object):
             "termination_flag_4".
         """
         # get termination flags
-        self.termination_flag = self.final_values[termination_flag]
+        self.termination_flag = self.get_column(termination_flag)
 
         # save values to plot
         self.get_x_var()
@@ -993,11 +1007,9 @@ class plot2D(object):
             # read final values from final_values
             else:
                 if self.log10_z:
-                    self.z_var = np.log10(
-                        _get_grid_column(self.psygrid, self.z_var_str))
+                    self.z_var = np.log10(self.get_column(self.z_var_str))
                 else:
-                    self.z_var = _get_grid_column(
-                        self.psygrid, self.z_var_str)
+                    self.z_var = self.get_column(self.z_var_str)
 
         # take the z_var at oRLO
         else:
-- 
2.43.0


From f2a3a1b7f8ade2fc322a9263e27cfd89e1b9ef0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:50 +0000
Subject: [PATCH 115/118] fix: plot the values of the extra grid on top of a 2D
 figure

---
 posydon/visualization/plot2D.py | 34 ++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/posydon/visualization/plot2D.py b/posydon/visualization/plot2D.py
index 7456159..3be48b1 100644
--- a/posydon/visualization/plot2D.py
+++ b/posydon/visualization/plot2D.py
@@ -238,15 +238,7 @@ class plot2D(object):
         self.final_values = self.psygrid.final_values
         if self.final_values is None:
             raise ValueError("No final values in PSyGrid")
-        # add extra properties to final_values
-        if termination_flag in ["combined_TF12", "debug", "interpolation_class_errors"]:
-            self.add_properties_to_final_values(termination_flag)
-        if termination_flag == 'termination_flag_2':
-            # remmove ? from strings
-            self.final_values = self.final_values.copy()
-            TF2 = self.final_values['termination_flag_2']
-            TF2_clean = [TF.replace('?', '') for TF in TF2]
-            self.final_values['termination_flag_2'] = TF2_clean
+        self.prepare_termination_flag(termination_flag)
         self.final_values_str = self.final_values.dtype.names
 
         H1_names = ()
@@ -464,9 +456,14 @@ class plot2D(object):
             # add extra layer of grid on top of the plot
             if self.extra_grid is not None:
                 # switch values to extra psygrid and update values to plot
+                self.psygrid = self.extra_grid
                 self.initial_values = self.extra_grid.initial_values
                 self.final_values = self.extra_grid.final_values
                 self.add_properties_to_initial_values()
+                self.prepare_termination_flag(self.extra_grid_termination_flag)
+                if (self.z_var_str is not None
+                    and 'relative_change' in self.z_var_str):
+                    self.add_properties_to_final_values(None)
                 self.update_values_to_plot(self.extra_grid_termination_flag)
 
                 self.plot_panel(ax, extra_grid_call=True)
@@ -768,6 +765,25 @@ class plot2D(object):
             new_final_values[self.z_var_str] = relative_change_key
         self.final_values = new_final_values
 
+    def prepare_termination_flag(self, termination_flag):
+        """Prepare the final values to plot a termination flag.
+
+        Parameters
+        ----------
+        termination_flag : str
+            Termination flag to display.
+
+        """
+        # add extra properties to final_values
+        if termination_flag in ["combined_TF12", "debug", "interpolation_class_errors"]:
+            self.add_properties_to_final_values(termination_flag)
+        if termination_flag == 'termination_flag_2':
+            # remmove ? from strings
+            self.final_values = self.final_values.copy()
+            TF2 = self.final_values['termination_flag_2']
+            TF2_clean = [TF.replace('?', '') for TF in TF2]
+            self.final_values['termination_flag_2'] = TF2_clean
+
     def update_markers_colors_legends(
         self, termination_flag, MARKERS_COLORS_LEGENDS=None
     ):
-- 
2.43.0


From b55d6a524850de778423f7ab3c227f9e4cb2e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:25 +0000
Subject: [PATCH 116/118] fix: name the slices of variables with braces in
 their labels

---
 posydon/visualization/plot2D.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/posydon/visualization/plot2D.py b/posydon/visualization/plot2D.py
index 3be48b1..f6d01e4 100644
--- a/posydon/visualization/plot2D.py
+++ b/posydon/visualization/plot2D.py
@@ -132,7 +132,9 @@ class plot2D(object):
         self.grid_3D = grid_3D
         self.slice_3D_var_str = slice_3D_var_str
         if slice_3D_var_str in DEFAULT_LABELS:
-            self.slice_3D_text = DEFAULT_LABELS[slice_3D_var_str][0] + '$={}$'
+            label = DEFAULT_LABELS[slice_3D_var_str][0]
+            label = label.replace('{', '{{').replace('}', '}}')
+            self.slice_3D_text = label + '$={}$'
         elif slice_3D_var_str is None:
             self.slice_3D_text = '$={}$'
         else:
@@ -149,7 +151,9 @@ class plot2D(object):
         self.grid_4D = grid_4D
         self.slice_4D_var_str = slice_4D_var_str
         if slice_4D_var_str in DEFAULT_LABELS:
-            self.slice_4D_text = DEFAULT_LABELS[slice_4D_var_str][0] + '$={}$'
+            label = DEFAULT_LABELS[slice_4D_var_str][0]
+            label = label.replace('{', '{{').replace('}', '}}')
+            self.slice_4D_text = label + '$={}$'
         elif slice_4D_var_str is None:
             self.slice_4D_text = '$={}$'
         else:
-- 
2.43.0


From 8f6ae7d3e1892b6c583b51f76c3ed5355c196670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:25 +0000
Subject: [PATCH 117/118] fix: plot a track with a list of a single variable

---
 posydon/visualization/plot1D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/posydon/visualization/plot1D.py b/posydon/visualization/plot1D.py
index e78e72f..546a0dd 100644
--- a/posydon/visualization/plot1D.py
+++ b/posydon/visualization/plot1D.py
@@ -134,6 +134,8 @@ class plot1D(object):
             raise ValueError(
                 "x_var_str = {} is not available a str type!".format(x_var_str)
             )
+        if isinstance(y_var_str, list) and len(y_var_str) == 1:
+            y_var_str = y_var_str[0]
         if isinstance(y_var_str, str):
             if y_var_str not in self.history_str:
                 raise ValueError(
-- 
2.43.0


From dcbebc359154ca7c658acad9867de7d664c73e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:51 +0000
Subject: [PATCH 118/118] fix: leave further panels empty when all slices are
 plotted

---
 posydon/visualization/plot2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/visualization/plot2D.py b/posydon/visualization/plot2D.py
index f6d01e4..89098fb 100644
--- a/posydon/visualization/plot2D.py
+++ b/posydon/visualization/plot2D.py
@@ -1328,7 +1328,7 @@ class plot2D(object):
                 if i3D == self.slice_3D_n:
                     i3D = 0
                     i4D += 1
-                if i4D == self.slice_4D_n:
+                if i4D >= self.slice_4D_n:
                     axs[row, col].axis('off')
                     continue
                 if self.slice_3D_n>1:
-- 
2.43.0

