From 2415a28a41edb6092bb35135201a4123bd12df7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 01/52] fix: very_deep_copy keeps the design lattice instead of
 overwriting it with the machine lattice

---
 pySC/core/simulated_commissioning.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index ed5ff31..d502425 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -951,6 +951,7 @@ class SimulatedCommissioning:
         copied_structure.IDEALRING = self.IDEALRING.deepcopy()
         for ind, element in enumerate(self.RING):
             copied_structure.RING[ind] = element.deepcopy()
+        for ind, element in enumerate(self.IDEALRING):
             copied_structure.IDEALRING[ind] = element.deepcopy()
         return copied_structure
 
-- 
2.43.0


From 3b772b7b56417a0e75e47ec92219d30945720a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 02/52] fix: SCgetModelRING no longer zeroes the dipole
 setpoints of the machine it models

---
 pySC/lattice_properties/response_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 5c3dea5..0fc2f8a 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -160,8 +160,8 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
     ring = SC.IDEALRING.deepcopy()
     for ord in range(len(SC.RING)):
         if hasattr(SC.RING[ord], 'SetPointA') and hasattr(SC.RING[ord], 'SetPointB'):
-            ring[ord].PolynomA = SC.RING[ord].SetPointA
-            ring[ord].PolynomB = SC.RING[ord].SetPointB
+            ring[ord].PolynomA = SC.RING[ord].SetPointA.copy()
+            ring[ord].PolynomB = SC.RING[ord].SetPointB.copy()
             ring[ord].PolynomA[0] = 0.0
             ring[ord].PolynomB[0] = 0.0
         if includeAperture:
-- 
2.43.0


From 26a6d9282acaf3f38821d140d945675e3ed53ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 03/52] fix: integer setpoints are no longer truncated or
 rejected when scaled, added or clipped

---
 pySC/utils/classdef_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/classdef_tools.py b/pySC/utils/classdef_tools.py
index 9641d74..8514826 100644
--- a/pySC/utils/classdef_tools.py
+++ b/pySC/utils/classdef_tools.py
@@ -55,7 +55,7 @@ def check_input_and_setpoints(method, ords, setpoints):
     if method not in SETTING_METHODS:
         raise ValueError(f'Unsupported setpoint method: {method}. Allowed options are: {SETTING_METHODS}.')
     ords_1d = np.ravel(np.array([ords], dtype=int))
-    setpoints_1d = np.ravel(np.array([setpoints]))
+    setpoints_1d = np.ravel(np.array([setpoints], dtype=float))
     if len(setpoints_1d) not in (1, len(ords_1d)):
         raise ValueError(f'Setpoints have to have length of 1 or matching to the length or ordinates.')
     return ords_1d, (np.repeat(setpoints_1d, len(ords_1d)) if len(setpoints_1d) == 1 else setpoints_1d)
-- 
2.43.0


From 4f8aa3931963c9921f68c26685db02068a006b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 04/52] fix: systematic multipole errors use the column of
 their own plane and leave the caller's table untouched

---
 pySC/core/simulated_commissioning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index d502425..00108fd 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -477,13 +477,13 @@ class SimulatedCommissioning:
         if BA.ndim != 2 or BA.shape[1] != 2:
             raise ValueError("BA has to  be numpy.array of shape N x 2.")
         ind, source = (1, "A") if skewness else (0, "B")
-        newBA = BA[:, :]
+        newBA = BA.copy()
         newBA[order, ind] = 0
         for ord in ords:
-            for target in ("A", "B"):
+            for ind_target, target in enumerate(("B", "A")):
                 attr_name = f'SysPol{target}From{source}'
                 syspol = getattr(self.RING[ord], attr_name) if hasattr(self.RING[ord], attr_name) else DotDict()
-                syspol[order] = newBA[:, ind]
+                syspol[order] = newBA[:, ind_target].copy()
                 setattr(self.RING[ord], attr_name, syspol)
 
     def set_random_multipole_errors(self, ords: ndarray, BA):
-- 
2.43.0


From 884662bd42b63946de98b574c57e56e352795467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 05/52] fix: registering a support keeps the uncertainties of
 other support types sharing its endpoints

---
 pySC/core/simulated_commissioning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 00108fd..aeef595 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -430,7 +430,9 @@ class SimulatedCommissioning:
         for ind in np.ravel(support_ords):
             setattr(self.RING[ind], f"{support_type}Offset", np.zeros(3))  # [x,y,z]
             setattr(self.RING[ind], f"{support_type}Roll", np.zeros(3))  # [az,ax,ay]
-            self.SIG.Support[ind] = DotDict()
+            # sigmas of other support types sharing this endpoint are kept
+            self.SIG.Support[ind] = DotDict({key: value for key, value in self.SIG.Support.get(ind, {}).items()
+                                             if not key.startswith(support_type)})
         for ord_pair in support_ords.T:
             for key, value in kwargs.items():
                 if isinstance(value, list):
-- 
2.43.0


From 119d448a526125decf70bafb75794f4dd239e140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 06/52] fix: verify_structure no longer crashes on split
 magnets

---
 pySC/core/simulated_commissioning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index aeef595..5108634 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -1020,9 +1020,9 @@ class SimulatedCommissioning:
                         LOGGER.warning(f'Field "{field:s}" in SC.SIG.Magnet doesnt match lattice element (Magnet ord: {ord:d})')
             if hasattr(self.RING[ord],'MasterOf'):
                 for cOrd in self.RING[ord].MasterOf:
-                    for field in self.RING[cOrd]:
+                    for field in vars(self.RING[cOrd]):
                         if not hasattr(self.RING[ord],field): 
-                            LOGGER.warning(f'Child magnet (ord: {ord:d}) has different field "{field:s}" than master magnet (ord: %{cOrd:d}).')
+                            LOGGER.warning(f'Child magnet (ord: {cOrd:d}) has different field "{field:s}" than master magnet (ord: {ord:d}).')
        
         if len(self.ORD.RF) == 0:
             LOGGER.warning('No cavity registered. Use "SCregisterCavity".')
-- 
2.43.0


From 4362f90bff72adcbba95e8de3869d1a6864a2ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 07/52] fix: support errors can be applied repeatedly without
 accumulating or raising

---
 pySC/core/simulated_commissioning.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 5108634..2b71db7 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -592,6 +592,11 @@ class SimulatedCommissioning:
                 rolls0 = copy.deepcopy(getattr(self.RING[ordPair[0]], f"{support_type}Roll"))  # Twisted supports are not considered
                 offsets0 = copy.deepcopy(getattr(self.RING[ordPair[0]], f"{support_type}Offset"))
                 offsets1 = copy.deepcopy(getattr(self.RING[ordPair[1]], f"{support_type}Offset"))
+                # Whatever is not drawn here must not be inherited from previously applied errors
+                if f"{support_type}Roll" not in self.SIG.Support[ordPair[0]].keys():
+                    rolls0[1:] = 0.0  # pitch and yaw follow from the endpoint offsets
+                elif f"{support_type}Offset" not in self.SIG.Support[ordPair[0]].keys():
+                    offsets0, offsets1 = np.zeros(3), np.zeros(3)
 
                 if rolls0[1] != 0:
                     if f"{support_type}Offset" in self.SIG.Support[ordPair[1]].keys():
-- 
2.43.0


From bcd3bae7424011dec1a2018a88b8c033db929ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 08/52] fix: circumference error does not accumulate when
 errors are applied repeatedly

---
 pySC/core/simulated_commissioning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 2b71db7..e06fa74 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -563,6 +563,8 @@ class SimulatedCommissioning:
         # Circumference
         if 'Circumference' in self.SIG.keys():
             circScaling = 1 + self.SIG.Circumference * sc_tools.randnc(nsigmas, ())
+            # error is relative to the design circumference, not to a previously applied circumference error
+            circScaling *= at_wrapper.findspos(self.IDEALRING)[-1] / at_wrapper.findspos(self.RING)[-1]
             self.RING = sc_tools.scale_circumference(self.RING, circScaling, 'rel')
             LOGGER.info('Circumference error applied.')
         # Misalignments
-- 
2.43.0


From d2fe9093cd725d1d4a40a2efe8c020c474b7a08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 09/52] fix: generated bunches follow the beam matrix also when
 it has correlations

---
 pySC/core/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/beam.py b/pySC/core/beam.py
index bffd73d..195c5b3 100644
--- a/pySC/core/beam.py
+++ b/pySC/core/beam.py
@@ -163,7 +163,7 @@ def generate_bunches(SC: SimulatedCommissioning, nParticles=None) -> ndarray:
     Z = np.tile(np.transpose(SC.INJ.randomInjectionZ * sc_tools.randnc(2, (1, 6)) + SC.INJ.Z0), nParticles)
     if nParticles != 1:
         V, L = np.linalg.eig(SC.INJ.beamSize)
-        Z += np.diag(np.sqrt(V)) @ L @ sc_tools.randnc(3, (6, nParticles))
+        Z += L @ np.diag(np.sqrt(V)) @ sc_tools.randnc(3, (6, nParticles))
     return SC.INJ.postFun(Z)
 
 
-- 
2.43.0


From d022ba1257bbbc13ebde774f418860801bd52324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 10/52] fix: correct_rf_phase does not crash when the
 measurement is not precise enough

---
 pySC/correction/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/rf.py b/pySC/correction/rf.py
index 069b286..b1d4bdf 100644
--- a/pySC/correction/rf.py
+++ b/pySC/correction/rf.py
@@ -49,7 +49,7 @@ def correct_rf_phase(SC, cav_ords=None, bpm_ords=None, n_steps=15, plot_results=
     delta_phi = _fold_phase(fsolve(sol, test_vec[np.argmax(sol(test_vec))] - abs(test_vec[0]) / 2), lamb)
     if np.abs(param[0]) < 2 * np.sqrt(param_cov[0, 0]) or np.abs(param[2]) < 2 * np.sqrt(param_cov[2, 2]):
         LOGGER.warning("Measurements is not sufficiently precise to make a correction")
-        delta_phi = 0.0
+        delta_phi = np.zeros(1)
     if np.isnan(delta_phi):  # TODO does this ever happen?
         raise RuntimeError('RF phase correction unsuccessful: NaN phase')
 
-- 
2.43.0


From 5dcefd009b3a77416a87e819613f47a8bfa80155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 11/52] fix: response_matrix accepts a scalar amplitude and no
 longer swaps its two-step and many-step evaluations

---
 pySC/lattice_properties/response_measurement.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 33dbb60..e09e216 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -8,7 +8,7 @@ LOGGER = logging_tools.get_logger(__name__)
 
 
 def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit_order=1):
-    if ((not isinstance(amp, list) and not len(amp) == 1) or
+    if ((not isinstance(amp, list) and not np.size(amp) == 1) or
             (isinstance(amp, list) and (len(amp[0]) != len(cm_ords[0]) or len(amp[1]) != len(cm_ords[1])))):
         raise ValueError('response_matrix amplitude must be defined as single value or '
                          'array matching the number of used HCM and VCM.')
@@ -40,15 +40,17 @@ def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit
                         gradient[n_step, :] = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
                 dCM = real_cm_setpoint - cmstart[nCM]
                 cm_steps[n_dim][:, nCM] = dCM
-                rm[:, i] = gradient / dCM
-            else:
-                dCM = max_step
-                cm_steps[n_dim][:, nCM] = dCM
                 for nBPM in range(gradient.shape[1]):
                     x = dCM[~np.isnan(gradient[:, nBPM])]
                     y = gradient[~np.isnan(gradient[:, nBPM]), nBPM]
+                    if len(x) <= fit_order:  # BPM not reached by the beam
+                        continue
                     rm[nBPM, i] = np.polyfit(x, y, fit_order)[fit_order - 1]
                     error[nBPM, i] = np.sqrt(np.mean((rm[nBPM, i] * x - y).T ** 2))
+            else:
+                dCM = max_step
+                cm_steps[n_dim][:, nCM] = dCM
+                rm[:, i] = gradient / dCM
             i = i + 1
             SC.set_cm_setpoints(cm_ords[n_dim][nCM], cmstart[nCM], skewness=bool(n_dim))
     rm[np.isnan(rm)] = 0
@@ -100,7 +102,7 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
         else:
             max_step *= decrease_factor
             LOGGER.debug(
-                f'Insufficient beam reach ({max_pos:d}/{max_pos_ref:d}). '
+                f'Insufficient beam reach ({max_pos:.0f}/{max_pos_ref:.0f}). '
                 f'cm_step reduced to {1E6 * max_step:.1f}urad.')
     return max_step, np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
 
-- 
2.43.0


From 16715170665885110bfb31afe528d6848ff866a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 12/52] fix: dispersion measurement works with more than two
 steps

---
 pySC/lattice_properties/response_measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index e09e216..84933e5 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -75,7 +75,7 @@ def dispersion(SC, rf_step, bpm_ords=None, cav_ords=None, n_steps=2):
         SC.set_cavity_setpoints(cav_ords, rf_steps[:, nStep], 'Frequency', 'abs')
         dB[nStep, :] = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
     SC.set_cavity_setpoints(cav_ords, rf0, 'Frequency', 'abs')
-    return np.linalg.lstsq(np.linspace(-rf_step, rf_step, n_steps), dB)[0]
+    return np.ravel(np.linalg.lstsq(np.linspace(-rf_step, rf_step, n_steps)[:, np.newaxis], dB, rcond=None)[0])
 
 
 def _check_ords(SC, bpm_ords, cav_ords):
-- 
2.43.0


From 7d0fe3b676b03e4b70d8a09b14d5f9a88d181b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 13/52] fix: fit_chroma starts from the actual setpoints and
 applies the best solution found

---
 pySC/correction/chroma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/chroma.py b/pySC/correction/chroma.py
index 27b08ee..8e47e97 100644
--- a/pySC/correction/chroma.py
+++ b/pySC/correction/chroma.py
@@ -39,13 +39,13 @@ def fit_chroma(SC, s_ords, target_chroma=None, init_step_size=np.array([2, 2]),
     LOGGER.debug(f'Fitting chromaticities from {SC.RING.get_chrom()} to {target_chroma}.')  # first two elements
     SP0 = []
     for n in range(len(s_ords)):
-        SP0.append(np.zeros_like(s_ords[n]))
+        SP0.append(np.zeros(len(s_ords[n])))
     for nFam in range(len(s_ords)):
         for n in range(len(s_ords[nFam])):
             SP0[nFam][n] = SC.RING[s_ords[nFam][n]].SetPointB[2]
     fun = lambda x: _fit_chroma_fun(SC, s_ords, x, SP0, target_chroma)
     sol = fmin(fun, init_step_size, xtol=xtol, ftol=ftol)
-    # TODO needs to set the solution to SC
+    fun(sol)  # the last point tried by the solver is in general not the solution
     LOGGER.debug(f'        Final chromaticity: {SC.RING.get_chrom()}\n          Setpoints change: {sol}.')  # first two elements
     return SC
 
-- 
2.43.0


From 812d1054b07bd1757ac4b8652d944bc07eb6995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 14/52] fix: fit_injection_trajectory minimises the distance at
 every BPM, not the mean offset

---
 pySC/correction/injection_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/injection_fit.py b/pySC/correction/injection_fit.py
index 95a35e1..bf97557 100644
--- a/pySC/correction/injection_fit.py
+++ b/pySC/correction/injection_fit.py
@@ -69,7 +69,7 @@ def _fit_bpm_data(s_bpm, bref):
 
 def _merit_function(x, SC, bref, ords_used):
     t = at_wrapper.lattice_track(SC.IDEALRING, np.concatenate((x, np.zeros(2))), 1, ords_used, keep_lattice=False)[[0, 2], 0, :, 0]
-    return np.sqrt(np.mean(bref - t) ** 2)
+    return np.sqrt(np.mean((bref - t) ** 2))
 
 
 def _log_initial_final_states(SC, delta_z0):
-- 
2.43.0


From 606d1c3801b53215eb5c8dc2f1fb4a98116c3f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 15/52] fix: tune_scan restores the initial quadrupole
 setpoints between points and stays on its grid

---
 pySC/correction/tune.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index cb38b9f..c4ec7f6 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -49,15 +49,16 @@ def tune_scan(SC, quad_ords, rel_quad_changes, target=1, n_points=60, do_plot=Fa
     nqsp = np.array([len(rel_quad_changes[0]), len(rel_quad_changes[1])], dtype=int)
     max_turns = np.full((nqsp[0], nqsp[1]), np.nan)
     transmission = np.full((nqsp[0], nqsp[1], nTurns), np.nan)
-    inds = _golden_donut_inds(np.floor_divide(nqsp, 2), n_points=n_points)
+    inds = _golden_donut_inds(np.floor_divide(nqsp - 1, 2), n_points=n_points)
     first_quads = [SC.RING[quad_ords[0][0]].FamName, SC.RING[quad_ords[1][0]].FamName]
     ords = np.hstack(quad_ords)
+    initial_setpoints = np.array([SC.RING[ord].SetPointB[1] for ord in ords])
     for q1, q2 in inds.T:
         q_setpoints = np.hstack((np.ones(nq[0]) * rel_quad_changes[0][q1], np.ones(nq[1]) * rel_quad_changes[1][q2]))
         SC.set_magnet_setpoints(ords, q_setpoints, False, 1, method='rel')
         max_turns[q1, q2], surviving_fraction = beam_transmission(SC, nParticles=nParticles, nTurns=nTurns)
         transmission[q1, q2, :] = 1 * surviving_fraction
-        SC.set_magnet_setpoints(ords, 1 / q_setpoints, False, 1, method='rel')
+        SC.set_magnet_setpoints(ords, initial_setpoints, False, 1, method='abs')
 
         if do_plot:
             f, ax = plot_scan(transmission[:, :, -1], max_turns, first_quads, rel_quad_changes)
-- 
2.43.0


From 7a64a29df64238520d03aee71f0f6d57c60282be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 16/52] fix: LOCO dispersion response uses the same lattice and
 rf step before and after the quadrupole change

---
 pySC/correction/loco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 99568b4..a25dd11 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -50,11 +50,11 @@ def generating_quads_response_matrices(args):
         SC.set_magnet_setpoints(quad_index, -dk, skewness, order, method)
         return C_measured - C_model
 
-    dispersion_model = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords)
+    dispersion_model = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step, useIdealRing=useIdealRing)
     SC.set_magnet_setpoints(quad_index, dk, skewness, order, method)
     C_measured = SCgetModelRM(SC, used_bpm_indexes, used_cor_indexes, dkick=correctors_kick, useIdealRing=useIdealRing,
                               trackMode=trackMode)
-    dispersion_meas = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step)
+    dispersion_meas = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step, useIdealRing=useIdealRing)
     SC.set_magnet_setpoints(quad_index, -dk, skewness, order, method)
     return np.hstack((C_measured - C_model, (dispersion_meas - dispersion_model).reshape(-1, 1)))
 
-- 
2.43.0


From 6d548cb223d6a336724fc12db260cb3181238eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 17/52] fix: orbit correction recognises a perfectly constant
 reading as converged

---
 pySC/correction/orbit_trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index 2d0d444..9ae7958 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -371,7 +371,7 @@ def _golden_donut_diffs(r0, r1, n_points):
 def _is_stable_or_converged(n, eps, hist):  # TODO rethink
     if len(hist) < n:
         return False
-    return (np.var(hist[-n:]) / np.std(hist[-n:])) < eps
+    return np.std(hist[-n:]) < eps
 
 
 def _wiggling(SC, bpm_ords, cm_ords, transmission_limit, nums_correctors=range(1, 9)):
-- 
2.43.0


From 02cab36869570d0e5c90a7398f10a4e441304957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 18/52] fix: stitch and balance leave the reference of the
 caller untouched

---
 pySC/correction/orbit_trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index 9ae7958..e7fb82a 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -142,7 +142,7 @@ def stitch(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, n_b
             raise RuntimeError("Not enough transmission for stitching to work.")
 
     # Prepare reference
-    reference = reference.reshape(2, len(bpm_readings[0]))
+    reference = reference.reshape(2, len(bpm_readings[0])).copy()
     reference[:, len(bpm_ords):] = 0
     reference = reference.reshape(response_matrix.shape[0])
     Mplus = sc_tools.pinv(response_matrix, **pinv_params)
@@ -209,7 +209,7 @@ def balance(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, ep
         raise ValueError("Balancing works only with full 2 turn transmission.")
 
     # Prepare reference
-    reference = reference.reshape(2, len(bpm_readings[0]))
+    reference = reference.reshape(2, len(bpm_readings[0])).copy()
     reference[:, len(bpm_ords):] = 0
     reference = reference.reshape(response_matrix.shape[0])
     Mplus = sc_tools.pinv(response_matrix, **pinv_params)
-- 
2.43.0


From 6e89ebebedf5374b0ebce75e923ef1ac11b1cfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 19/52] fix: SCgetModelRING handles apertures and cavities
 which are not registered

---
 pySC/lattice_properties/response_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 0fc2f8a..624beb3 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -165,11 +165,11 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
             ring[ord].PolynomA[0] = 0.0
             ring[ord].PolynomB[0] = 0.0
         if includeAperture:
-            if 'EApertures' in SC.RING[ord]:
+            if hasattr(SC.RING[ord], 'EApertures'):
                 ring[ord].EApertures = SC.RING[ord].EApertures
-            if 'RApertures' in SC.RING[ord]:
+            if hasattr(SC.RING[ord], 'RApertures'):
                 ring[ord].RApertures = SC.RING[ord].RApertures
-        if len(SC.ORD.RF) and hasattr(SC.RING[ord], 'Frequency'):
+        if ord in SC.ORD.RF:
             for field in RF_PROPERTIES:
                 setattr(ring[ord], field, getattr(SC.RING[ord], f"{field}SetPoint"))
     return ring
-- 
2.43.0


From 10dcabeb4d08c170ba429d313beae2a578f7f396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 20/52] fix: support crossing the injection point only rolls
 the elements on it

---
 pySC/core/simulated_commissioning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index e06fa74..7950f03 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -757,8 +757,8 @@ class SimulatedCommissioning:
                 offset2 = off0[0, ords[1]] - off0[0, ords[0]]
                 if ords[0] > ords[1]:
                     struct_length = ring_length + struct_length
-                    mask[ords[0]] = False
-                    mask = ~mask
+                    mask[ords[0]:] = True  # support across the injection point
+                    mask[:ords[1] + 1] = True
                 else:
                     mask[ords[1]] = True
                 roll0[0, mask] += roll_start0
-- 
2.43.0


From 665e5176861d48f741c374d6ebeb414432d271c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 21/52] fix: support endpoints are drawn from their own
 uncertainty, not from the one of the start point

---
 pySC/core/simulated_commissioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 7950f03..25fbf84 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -587,7 +587,8 @@ class SimulatedCommissioning:
                         continue
                     setattr(self.RING[ordPair[0]], field, classdef_tools.randn_cutoff(value, nsigmas))
                     setattr(self.RING[ordPair[1]], field,
-                            classdef_tools.randn_cutoff(value, nsigmas) if field in self.SIG.Support[ordPair[1]].keys()
+                            classdef_tools.randn_cutoff(self.SIG.Support[ordPair[1]][field], nsigmas)
+                            if field in self.SIG.Support[ordPair[1]].keys()
                             else getattr(self.RING[ordPair[0]], field))
 
                 struct_length = np.remainder(s_pos[ordPair][1] - s_pos[ordPair][0], s_pos[-1])
-- 
2.43.0


From e19f3b2ba2600b34415abd295218401a991f6823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 22/52] fix: higher-order multipole errors can be replaced by
 lower-order ones

---
 pySC/core/simulated_commissioning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 25fbf84..27e5383 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -1094,6 +1094,8 @@ class SimulatedCommissioning:
                     polynom_errors = getattr(self.RING[target_ord], f'SysPol{target}From{source}')
                     for n in polynom_errors.keys():
                         new_polynom = classdef_tools.add_padded(new_polynom, polynoms[source][n] * polynom_errors[n])
+            if getattr(self.RING[target_ord], 'MaxOrder', 0) >= len(new_polynom):  # errors of higher order were replaced
+                self.RING[target_ord].MaxOrder = len(new_polynom) - 1
             setattr(self.RING[target_ord], f"Polynom{target}", new_polynom)
 
         if hasattr(self.RING[source_ord], 'BendingAngleError'):
-- 
2.43.0


From ad2398b6449adce25a5be9eba6b986ea89a67231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 23/52] fix: pseudo-orbit reading reports lost beam instead of
 raising when no turn reached a BPM

---
 pySC/core/beam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/core/beam.py b/pySC/core/beam.py
index 195c5b3..8e8fb59 100644
--- a/pySC/core/beam.py
+++ b/pySC/core/beam.py
@@ -55,9 +55,9 @@ def bpm_reading(SC: SimulatedCommissioning, bpm_ords: ndarray = None, calculate_
     if SC.plot:
         _plot_bpm_reading(SC, mean_bpm_orbits_3d, bpm_inds)
     if SC.INJ.trackMode == TRACK_PORB:   # ORB averaged over low amount of turns
-        mean_bpm_orbits_3d = np.average(np.ma.array(mean_bpm_orbits_3d, mask=np.isnan(mean_bpm_orbits_3d)),
-                                        weights=np.ma.array(mean_bpm_sums_3d, mask=np.isnan(mean_bpm_sums_3d)), axis=2,
-                                        keepdims=True).filled(np.nan)
+        mean_bpm_orbits_3d = np.ma.average(np.ma.array(mean_bpm_orbits_3d, mask=np.isnan(mean_bpm_orbits_3d)),
+                                           weights=np.ma.array(mean_bpm_sums_3d, mask=np.isnan(mean_bpm_sums_3d)), axis=2,
+                                           keepdims=True).filled(np.nan)
         mean_bpm_sums_3d = np.nansum(mean_bpm_sums_3d, axis=2, keepdims=True) / SC.INJ.nTurns
     if calculate_errors and SC.INJ.trackMode == TRACK_TBT:
         bpm_orbits_4d[np.sum(np.isnan(bpm_orbits_4d), axis=3) > 0, :] = np.nan
-- 
2.43.0


From 11d832d6acd341a2f903e82693a0bd81650987a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 24/52] fix: bunches can be generated from a singular beam
 matrix

---
 pySC/core/beam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/core/beam.py b/pySC/core/beam.py
index 8e8fb59..82c77bf 100644
--- a/pySC/core/beam.py
+++ b/pySC/core/beam.py
@@ -162,8 +162,8 @@ def generate_bunches(SC: SimulatedCommissioning, nParticles=None) -> ndarray:
         nParticles = SC.INJ.nParticles
     Z = np.tile(np.transpose(SC.INJ.randomInjectionZ * sc_tools.randnc(2, (1, 6)) + SC.INJ.Z0), nParticles)
     if nParticles != 1:
-        V, L = np.linalg.eig(SC.INJ.beamSize)
-        Z += L @ np.diag(np.sqrt(V)) @ sc_tools.randnc(3, (6, nParticles))
+        V, L = np.linalg.eigh(SC.INJ.beamSize)  # eigenvalues of a singular matrix may be negative by rounding
+        Z += L @ np.diag(np.sqrt(np.maximum(V, 0))) @ sc_tools.randnc(3, (6, nParticles))
     return SC.INJ.postFun(Z)
 
 
-- 
2.43.0


From 1166a4cdfa4c5bbbcf9906bcc515c1010f8c3584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 25/52] fix: LOCO debug message is formatted

---
 pySC/correction/loco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index a25dd11..fee8982 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -41,7 +41,7 @@ def calculate_jacobian(SC, C_model, dkick, used_cor_ind, bpm_indexes, quads_ind,
 def generating_quads_response_matrices(args):
     (quad_index, SC, C_model, correctors_kick, used_cor_indexes, used_bpm_indexes, dk, trackMode, useIdealRing,
      skewness, order, method, includeDispersion, rf_step, cav_ords) = args
-    LOGGER.debug('generating response to quad of index', quad_index)
+    LOGGER.debug(f'generating response to quad of index {quad_index}')
     if not includeDispersion:
         SC.set_magnet_setpoints(quad_index, dk, skewness, order, method)
         C_measured = SCgetModelRM(SC, used_bpm_indexes, used_cor_indexes, dkick=correctors_kick,
-- 
2.43.0


From c01cb81222e56e5dfcaf42ac4153dc5101def392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 26/52] fix: clipped correctors are recognised despite rounding
 when measuring responses

---
 pySC/lattice_properties/response_measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 84933e5..5af6cde 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -110,7 +110,7 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
 def _try_setpoint(SC, bpm_ords, cm_ord, cmstart, max_step, skewness):
     SC.set_cm_setpoints(cm_ord, cmstart + max_step, skewness)
     real_cm_setpoint = SC.get_cm_setpoints(cm_ord, skewness)
-    if real_cm_setpoint != (cmstart + max_step):
+    if np.abs(real_cm_setpoint - (cmstart + max_step)) > 1E-6 * np.abs(max_step):
         LOGGER.debug('CM  clipped. Using different CM direction.')
         max_step *= -1
         SC.set_cm_setpoints(cm_ord, cmstart + max_step, skewness)
-- 
2.43.0


From dccffa8c632cfe9f3361053b41d02e162a6e271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 27/52] fix: wiggling stops once the transmission limit is
 reached reproducibly

---
 pySC/correction/orbit_trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index e7fb82a..1ac62d5 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -390,7 +390,7 @@ def _wiggling(SC, bpm_ords, cm_ords, transmission_limit, nums_correctors=range(1
             bpm_readings, transmission_history, rms_orbit_history = _bpm_reading_and_logging(
                 SC, bpm_ords=bpm_ords, ind_history=transmission_history, orb_history=rms_orbit_history)
             if transmission_history[-1] >= transmission_limit:
-                for _ in range(2):
+                for _ in range(NREPRO - 1):
                     bpm_readings, transmission_history, rms_orbit_history = _bpm_reading_and_logging(
                         SC, bpm_ords=bpm_ords, ind_history=transmission_history, orb_history=rms_orbit_history)
                 if _is_repro(transmission_history, NREPRO):
-- 
2.43.0


From 01fe10e3ce1d8c8b8d31c1fdb0251217b85f3554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 28/52] fix: convergence of orbit correction is judged in each
 plane, not on the difference between the planes

---
 pySC/correction/orbit_trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index 1ac62d5..d4c844d 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -371,7 +371,7 @@ def _golden_donut_diffs(r0, r1, n_points):
 def _is_stable_or_converged(n, eps, hist):  # TODO rethink
     if len(hist) < n:
         return False
-    return np.std(hist[-n:]) < eps
+    return np.all(np.std(hist[-n:], axis=0) < eps)
 
 
 def _wiggling(SC, bpm_ords, cm_ords, transmission_limit, nums_correctors=range(1, 9)):
-- 
2.43.0


From 0938dec98d22b2532bd7dc69b1fe0f7799049a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 29/52] fix: orbit correction without beam fails before it sets
 the correctors to NaN

---
 pySC/correction/orbit_trajectory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index d4c844d..24f66e6 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -287,6 +287,8 @@ def correct(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, ep
     bpm_ords, cm_ords, reference = _check_ords(SC, response_matrix[:, :-1] if scaleDisp else response_matrix,
                                                reference, bpm_ords, cm_ords)
     bpm_readings, transmission_history, rms_orbit_history = _bpm_reading_and_logging(SC, bpm_ords=bpm_ords)  # Inject ...
+    if np.any(np.isnan(bpm_readings[0, :])):
+        raise RuntimeError('Orbit/trajectory correction: FAIL (no full transmission to begin with)')
     Mplus = sc_tools.pinv(response_matrix, **pinv_params)
 
     # Main loop
-- 
2.43.0


From fa88422d18532fa82994c9eacd85806d5ef763a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 30/52] fix: response is divided by the corrector step which
 was applied, also if the beam never reached far enough

---
 pySC/lattice_properties/response_measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 5af6cde..ee0e835 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -99,7 +99,7 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
                 max_step = max_step * amp / np.max(np.abs(bpm_readings_ravel - bref))
             else:
                 break
-        else:
+        elif n < n_iter - 1:  # the last step tried is the one which is used
             max_step *= decrease_factor
             LOGGER.debug(
                 f'Insufficient beam reach ({max_pos:.0f}/{max_pos_ref:.0f}). '
-- 
2.43.0


From d62d4d16238c9229548e4be3e9292a3c72d45984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 31/52] fix: response measurement with a clipped corrector and
 lost beam does not fail in the fit

---
 pySC/lattice_properties/response_measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index ee0e835..c3c2712 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -43,7 +43,7 @@ def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit
                 for nBPM in range(gradient.shape[1]):
                     x = dCM[~np.isnan(gradient[:, nBPM])]
                     y = gradient[~np.isnan(gradient[:, nBPM]), nBPM]
-                    if len(x) <= fit_order:  # BPM not reached by the beam
+                    if len(np.unique(x)) <= fit_order:  # BPM not reached by the beam at enough (unclipped) steps
                         continue
                     rm[nBPM, i] = np.polyfit(x, y, fit_order)[fit_order - 1]
                     error[nBPM, i] = np.sqrt(np.mean((rm[nBPM, i] * x - y).T ** 2))
-- 
2.43.0


From bd8b022c3d3ddf98f7936854342554d0135ea239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 32/52] fix: correct_rf_phase finds the rising zero crossing of
 the fitted sine and its fit converges

---
 pySC/correction/rf.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pySC/correction/rf.py b/pySC/correction/rf.py
index b1d4bdf..6d8bf25 100644
--- a/pySC/correction/rf.py
+++ b/pySC/correction/rf.py
@@ -6,7 +6,7 @@ This module contains functions to correct RF phase and frequency.
 """
 import numpy as np
 import matplotlib.pyplot as plt
-from scipy.optimize import curve_fit, fsolve
+from scipy.optimize import curve_fit
 
 from pySC.core.beam import bpm_reading
 from pySC.core.constants import SPEED_OF_LIGHT
@@ -21,6 +21,9 @@ def correct_rf_phase(SC, cav_ords=None, bpm_ords=None, n_steps=15, plot_results=
     def _sin_fit_fun(x, a, b, c):
         return a * np.sin(2 * np.pi * x + b) + c
 
+    def _sin_fit_jac(x, a, b, c):
+        return np.column_stack((np.sin(2 * np.pi * x + b), a * np.cos(2 * np.pi * x + b), np.ones(len(x))))
+
     LOGGER.debug(f'Calibrate RF phase with: \n {SC.INJ.nParticles} Particles \n {SC.INJ.nTurns} Turns '
                  f'\n {SC.INJ.nShots} Shots \n {n_steps} Phase steps.\n\n')
     cav_ords, bpm_ords = _check_inputs(SC, cav_ords, bpm_ords, n_steps)
@@ -38,15 +41,22 @@ def correct_rf_phase(SC, cav_ords=None, bpm_ords=None, n_steps=15, plot_results=
     test_vec, bpm_shift, bpm_shift_err = _check_data(test_vec, bpm_shift, bpm_shift_err)
 
     # Fit sinusoidal function to data
+    # start from the solution of the equivalent linear problem A * sin(x) + B * cos(x) + C
+    design = np.column_stack((np.sin(2 * np.pi * test_vec / lamb), np.cos(2 * np.pi * test_vec / lamb), np.ones(len(test_vec))))
+    sin_part, cos_part, mean = np.linalg.lstsq(design / bpm_shift_err[:, None], bpm_shift / bpm_shift_err, rcond=None)[0]
     param, param_cov = curve_fit(_sin_fit_fun, test_vec / lamb, bpm_shift, sigma=bpm_shift_err, absolute_sigma=True,
-                                 p0=np.array([max(bpm_shift) - np.mean(bpm_shift), np.pi, np.mean(bpm_shift)]))
+                                 p0=np.array([np.hypot(sin_part, cos_part), np.arctan2(cos_part, sin_part), mean]),
+                                 jac=_sin_fit_jac)
     if np.abs(param[2]) > np.abs(param[0]):  # fitted sin_wave does not cross zero
         raise RuntimeError(f'Zero crossing not within fit function\n Consider increasing RF voltage to at least '
                            f'{SC.RING[cav_ords[0]].VoltageSetPoint *  np.abs(param[2] / param[0])} V.')
 
     # Find zero crossing of fitted function
     sol = lambda x: _sin_fit_fun(x / lamb, param[0], param[1], param[2])
-    delta_phi = _fold_phase(fsolve(sol, test_vec[np.argmax(sol(test_vec))] - abs(test_vec[0]) / 2), lamb)
+    # on the rising slope, where the fitted function equals abs(param[0]) * sin(2 * pi * x / lamb + rising_phase) + param[2]
+    rising_phase = param[1] if param[0] > 0 else param[1] + np.pi
+    zero_crossing = -(np.arcsin(param[2] / np.abs(param[0])) + rising_phase) / (2 * np.pi) * lamb
+    delta_phi = _fold_phase(np.array([zero_crossing]), lamb)
     if np.abs(param[0]) < 2 * np.sqrt(param_cov[0, 0]) or np.abs(param[2]) < 2 * np.sqrt(param_cov[2, 2]):
         LOGGER.warning("Measurements is not sufficiently precise to make a correction")
         delta_phi = np.zeros(1)
-- 
2.43.0


From 5ead58de7df27848c00fd7bb17d0cc052c2c2d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:50 +0000
Subject: [PATCH 33/52] fix: bba weighs slopes with their standard errors, not
 with their variances

---
 pySC/correction/bba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index 77682aa..a04137a 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -157,7 +157,7 @@ def _data_evaluation(SC, bpm_pos, trajectories, mag_vec, n_dim, m_ord, par):
                 continue
             # TODO once the position errors are calculated and propagated, should be used
             p, pcov = np.polyfit(mag_vec[y_mask], y[y_mask], 1, w=np.ones(int(np.sum(y_mask))) / err, cov='unscaled')
-            tmp_slope[i, j], tmp_slope_err[i, j] = p[0], pcov[0, 0]
+            tmp_slope[i, j], tmp_slope_err[i, j] = p[0], np.sqrt(pcov[0, 0])
 
     for j in range(min(new_tmp_tra.shape[2], par.num_downstream_bpms)):
         y = tmp_slope[:, j]
-- 
2.43.0


From 04c1652275ee684e161debfb9a8ec26b7652127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:50 +0000
Subject: [PATCH 34/52] fix: bba reports a failed measurement instead of
 raising when no BPM shows a significant response

---
 pySC/correction/bba.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index a04137a..6dc4cca 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -172,6 +172,8 @@ def _data_evaluation(SC, bpm_pos, trajectories, mag_vec, n_dim, m_ord, par):
         center[j] = -p[1] / (par.fit_order * p[0])  # zero-crossing if linear, minimum is quadratic
         center_err[j] = np.sqrt(center[j] ** 2 * (pcov[0,0]/p[0]**2 + pcov[1,1]/p[1]**2 - 2 * pcov[0, 1] / p[0] / p[1]))
     mask = ~np.isnan(center)
+    if not np.any(mask):  # no BPM with significant response
+        return np.nan, np.nan
     offset_change = stats.weighted_mean(center[mask], center_err[mask])
     offset_change_error = stats.weighted_error(center[mask]-offset_change, center_err[mask]) / np.sqrt(stats.effective_sample_size(center[mask], stats.weights_from_errors(center_err[mask])))
     if not par.dipole_compensation and n_dim == 0 and SC.RING[m_ord].NomPolynomB[1] != 0:
-- 
2.43.0


From f4a58fe2492f7883b11511074e66dea568e773b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 35/52] fix: loco_correction_ng uses the Jacobian rows of the
 fitted parameters and applies the weights once

---
 pySC/correction/loco.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index fee8982..914bba8 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -92,12 +92,13 @@ def loco_correction_lm(initial_guess0, orm_model, orm_measured, Jn, lengths, inc
 def loco_correction_ng(initial_guess0, orm_model, orm_measured, J, lengths, including_fit_parameters, s_cut, weights=1, LM_lambda=0):
     initial_guess = initial_guess0.copy()
     mask = _get_parameters_mask(including_fit_parameters, lengths)
-    residuals = objective(initial_guess[mask], orm_measured - orm_model, J[mask, :, :], weights)
+    masked_jacobian = J[mask, :, :]
+    residuals = objective(initial_guess[mask], orm_measured - orm_model, masked_jacobian, 1)  # weighted only once, below
     r = residuals.reshape(np.transpose(orm_model).shape)
     t2 = np.zeros([len(initial_guess[mask]), 1])
     for i in range(len(initial_guess[mask])):
-        t2[i] = np.sum(np.dot(np.dot(J[i].T, weights), r.T))
-    return get_inverse(J[mask, :, :], t2, s_cut, weights, LM_lambda=LM_lambda)
+        t2[i] = np.sum(np.dot(np.dot(masked_jacobian[i].T, weights), r.T))
+    return get_inverse(masked_jacobian, t2, s_cut, weights, LM_lambda=LM_lambda)
 
 
 def objective(masked_params, orm_residuals, masked_jacobian, weights):
-- 
2.43.0


From d1dcd9a4fcb7fa344804fac324d28a938f30feb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 36/52] fix: debug mode is undone completely (level of the
 logger, open log file, also if the log file cannot be created)

---
 pySC/utils/logging_tools.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pySC/utils/logging_tools.py b/pySC/utils/logging_tools.py
index ddee5c5..60487c9 100644
--- a/pySC/utils/logging_tools.py
+++ b/pySC/utils/logging_tools.py
@@ -47,21 +47,21 @@ class DebugMode(object):
 
             self.logger = logging.getLogger(".".join([current_module, os.path.basename(caller_file)]))
 
-            # set level to debug
-            self.current_level = self.logger.getEffectiveLevel()
-            self.logger.setLevel(DEBUG)
-            self.logger.debug("Running in Debug-Mode.")
-
             # create logfile name:
             now = "{:s}_".format(datetime.datetime.now().isoformat())
             if log_file is None:
                 log_file = os.path.abspath(caller_file).replace(".pyc", "").replace(".py",
                                                                                     "") + ".log"
             self.log_file = os.path.join(os.path.dirname(log_file), now + os.path.basename(log_file))
+            self.file_h = file_handler(self.log_file, level=DEBUG)  # may fail, nothing is changed before
+
+            # set level to debug
+            self.current_level = self.logger.level
+            self.logger.setLevel(DEBUG)
+            self.logger.debug("Running in Debug-Mode.")
             self.logger.debug("Writing log to file '{:s}'.".format(self.log_file))
 
             # add handlers
-            self.file_h = file_handler(self.log_file, level=DEBUG)
             self.console_h = stream_handler(level=DEBUG, max_level=DEBUG)
             self.mod_logger = logging.getLogger(current_module)
             self.mod_logger.addHandler(self.file_h)
@@ -85,6 +85,7 @@ class DebugMode(object):
             self.logger.setLevel(self.current_level)
             self.mod_logger.removeHandler(self.file_h)
             self.mod_logger.removeHandler(self.console_h)
+            self.file_h.close()
 
 # Public Methods ###############################################################
 
-- 
2.43.0


From 2bd6ea7380affa4abd6041aa49c96d88d2d240c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 37/52] fix: SCsynchEnergyCorrection passed an argument which
 correct_rf_frequency does not have

---
 pySC/matlab_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/matlab_index.py b/pySC/matlab_index.py
index 082f0c9..a51800b 100644
--- a/pySC/matlab_index.py
+++ b/pySC/matlab_index.py
@@ -316,7 +316,7 @@ def SCsynchEnergyCorrection(SC, /, *, cavOrd=None, f_range=(-1E3, 1E3), nSteps=1
                             plotProgress=False, verbose=False):
     init_nturns = SC.INJ.nTurns
     SC.INJ.nTurns = nTurns
-    SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps, minTurns=minTurns,
+    SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps,
                            plot_results=plotResults, plot_progress=plotProgress, )
     SC.INJ.nTurns = init_nturns
     return SC
-- 
2.43.0


From 40290e41c0f47b629467b70e94f76fcb142db993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 38/52] fix: SCsynchEnergyCorrection and SCsynchPhaseCorrection
 did not restore nTurns if the correction failed

---
 pySC/matlab_index.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pySC/matlab_index.py b/pySC/matlab_index.py
index a51800b..845864d 100644
--- a/pySC/matlab_index.py
+++ b/pySC/matlab_index.py
@@ -316,19 +316,22 @@ def SCsynchEnergyCorrection(SC, /, *, cavOrd=None, f_range=(-1E3, 1E3), nSteps=1
                             plotProgress=False, verbose=False):
     init_nturns = SC.INJ.nTurns
     SC.INJ.nTurns = nTurns
-    SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps,
-                           plot_results=plotResults, plot_progress=plotProgress, )
-    SC.INJ.nTurns = init_nturns
-    return SC
+    try:
+        return correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps,
+                                    plot_results=plotResults, plot_progress=plotProgress, )
+    finally:
+        SC.INJ.nTurns = init_nturns
 
 
 def SCsynchPhaseCorrection(SC, /, *, cavOrd=None, nSteps=15, nTurns=20, plotResults=False, plotProgress=False,
                            verbose=False):
     init_nturns = SC.INJ.nTurns
     SC.INJ.nTurns = nTurns
-    SC = correct_rf_phase(SC, cav_ords=cavOrd, n_steps=nSteps, plot_results=plotResults, plot_progress=plotProgress, )
-    SC.INJ.nTurns = init_nturns
-    return SC
+    try:
+        return correct_rf_phase(SC, cav_ords=cavOrd, n_steps=nSteps, plot_results=plotResults,
+                                plot_progress=plotProgress, )
+    finally:
+        SC.INJ.nTurns = init_nturns
 
 
 def SCtuneScan(SC, qOrds, qSPvec, /, *, verbose=False, plotFlag=False, nParticles=None, nTurns=None, target=1,
-- 
2.43.0


From 47639b8f5c998d7774c2c82b0e986b40379ccd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 39/52] fix: SCplotBPMreading did not restore the plot flag if
 the reading failed

---
 pySC/matlab_index.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pySC/matlab_index.py b/pySC/matlab_index.py
index 845864d..241be29 100644
--- a/pySC/matlab_index.py
+++ b/pySC/matlab_index.py
@@ -203,8 +203,10 @@ def SCparticlesIn3D(*args):
 def SCplotBPMreading(SC, B=None, T=None):
     init_plot = SC.plot
     SC.plot = True
-    _ = bpm_reading(SC)[0]
-    SC.plot = init_plot
+    try:
+        _ = bpm_reading(SC)[0]
+    finally:
+        SC.plot = init_plot
     return SC
 
 
-- 
2.43.0


From 8190bfacd02c33c4f6e045cb2af35b290f5a1cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 40/52] fix: read_multipoles left its file open if reading
 failed

---
 pySC/utils/sc_tools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pySC/utils/sc_tools.py b/pySC/utils/sc_tools.py
index ab1027d..9b36e1b 100644
--- a/pySC/utils/sc_tools.py
+++ b/pySC/utils/sc_tools.py
@@ -149,9 +149,8 @@ def update_transformation(element):
 
 
 def read_multipoles(fname):  # TODO sample of the input anywhere?
-    f = open(fname, 'r')
-    tab = np.array(f.read().split()).astype(float)
-    f.close()
+    with open(fname, 'r') as f:
+        tab = np.array(f.read().split()).astype(float)
     if len(tab) % 3 != 0:
         LOGGER.error('Incorrect table size.')
         return
-- 
2.43.0


From a5af337faa4ce9b993f8fdbd74d2d1d0537a4ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 41/52] fix: read_multipoles raised for tables without a unique
 nominal component instead of using the first

---
 pySC/utils/sc_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/sc_tools.py b/pySC/utils/sc_tools.py
index 9b36e1b..2d47018 100644
--- a/pySC/utils/sc_tools.py
+++ b/pySC/utils/sc_tools.py
@@ -158,7 +158,7 @@ def read_multipoles(fname):  # TODO sample of the input anywhere?
     idx = np.where(AB == 1)
     if len(idx[0]) != 1:
         LOGGER.warning('Nominal order could not be (uniquely) determined. Continuing with idx=1.')
-        idx = 1
+        idx = ([0], [0])
     order, type = idx[0][0], idx[1][0]
     if type > 2:
         LOGGER.error('Ill-defined magnet type.')
-- 
2.43.0


From 1c7f0b74766f57196b300cce7cb356d6b7e400b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 42/52] fix: scale_circumference scaled drifts which occur
 several times in the lattice several times

---
 pySC/utils/sc_tools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pySC/utils/sc_tools.py b/pySC/utils/sc_tools.py
index 2d47018..bff6a6c 100644
--- a/pySC/utils/sc_tools.py
+++ b/pySC/utils/sc_tools.py
@@ -112,9 +112,8 @@ def scale_circumference(RING, circ, mode='abs'):  # TODO
         Dscale = 1 - (1 - circ) * C / D
     else:  # mode == 'abs'
         Dscale = 1 - (C - circ) / D
-    for ind in range(len(RING)):
-        if RING[ind].PassMethod == 'DriftPass':
-            RING[ind].Length = RING[ind].Length * Dscale
+    for drift in {id(element): element for element in RING if element.PassMethod == 'DriftPass'}.values():
+        drift.Length = drift.Length * Dscale
     return RING
 
 
-- 
2.43.0


From 12758f49e7bd8317494c011fb80b550e9ed73f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 43/52] fix: SCplotLattice and SCplotPhaseSpace failed with
 their default arguments

---
 pySC/matlab_index.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pySC/matlab_index.py b/pySC/matlab_index.py
index 241be29..f5ed251 100644
--- a/pySC/matlab_index.py
+++ b/pySC/matlab_index.py
@@ -216,12 +216,13 @@ def SCplotCMstrengths(SC: SimulatedCommissioning):
 
 def SCplotLattice(SC, /, *, transferLine=0, nSectors=1, oList=[], plotIdealRing=1, sRange=[], plotMagNames=0,
                   fontSize=16):
-    return plot_lattice(SC, transfer_line=bool(transferLine), n_sectors=nSectors, indices=oList,
-                        ideal_ring=bool(plotIdealRing), s_range=sRange, plot_magnet_names=bool(plotMagNames), font_size=fontSize)
+    return plot_lattice(SC, transfer_line=bool(transferLine), n_sectors=nSectors,
+                        indices=oList if len(oList) else None, ideal_ring=bool(plotIdealRing),
+                        s_range=sRange if len(sRange) else None, plot_magnet_names=bool(plotMagNames), font_size=fontSize)
 
 
-def SCplotPhaseSpace(SC, /, *, ord=np.zeros(1), customBunch=[], nParticles=None, nTurns=None, plotCO=False):
-    plot_phase_space(SC, ords=ord, custom_bunch=customBunch, nParticles=nParticles, nTurns=nTurns, plotCO=plotCO)
+def SCplotPhaseSpace(SC, /, *, ord=np.zeros(1, dtype=int), customBunch=[], nParticles=None, nTurns=None, plotCO=False):
+    plot_phase_space(SC, ords=ord, custom_bunch=customBunch if len(customBunch) else None, nParticles=nParticles, nTurns=nTurns, plotCO=plotCO)
 
 
 def SCplotSupport(SC: SimulatedCommissioning, /, *, fontSize: int = 8, xLim: Tuple[float, float] = None, ShiftAxes=None):
-- 
2.43.0


From 4d6f8942d4e14c3f0bb71d52917338af9305d8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:23 +0000
Subject: [PATCH 44/52] fix: measure_closed_orbit_response_matrix changed
 correctors at their limits and used kicks they could not give

---
 pySC/correction/loco.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 914bba8..24a1628 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -71,10 +71,15 @@ def measure_closed_orbit_response_matrix(SC, bpm_ords, cm_ords, dkick=1e-5):
     cnt = 0
     for n_dim in range(2):
         for cm_ord in cm_ords[n_dim]:
+            initial_setpoint = SC.get_cm_setpoints(cm_ord, skewness=bool(n_dim))
             SC.set_cm_setpoints(cm_ord, dkick, skewness=bool(n_dim), method=SETTING_ADD)
+            real_kick = SC.get_cm_setpoints(cm_ord, skewness=bool(n_dim)) - initial_setpoint
+            if np.abs(real_kick - dkick) > 1E-6 * np.abs(dkick):  # CM clipped, using different CM direction
+                SC.set_cm_setpoints(cm_ord, initial_setpoint - dkick, skewness=bool(n_dim))
+                real_kick = SC.get_cm_setpoints(cm_ord, skewness=bool(n_dim)) - initial_setpoint
             closed_orbits1 = bpm_reading(SC, bpm_ords=bpm_ords)[0]
-            SC.set_cm_setpoints(cm_ord, -dkick, skewness=bool(n_dim), method=SETTING_ADD)
-            response_matrix[:, cnt] = np.ravel((closed_orbits1 - closed_orbits0) / dkick)
+            SC.set_cm_setpoints(cm_ord, initial_setpoint, skewness=bool(n_dim))
+            response_matrix[:, cnt] = np.ravel((closed_orbits1 - closed_orbits0) / real_kick)
             cnt = cnt + 1
     return response_matrix
 
-- 
2.43.0


From a351eee82c407266b68c08f6291bf0cc94f15a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:23 +0000
Subject: [PATCH 45/52] fix: measure_closed_orbit_response_matrix left the
 machine in closed-orbit mode

---
 pySC/correction/loco.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 24a1628..b2d9e73 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -65,7 +65,8 @@ def measure_closed_orbit_response_matrix(SC, bpm_ords, cm_ords, dkick=1e-5):
     n_bpms = len(bpm_ords)
     n_cms = len(cm_ords[0]) + len(cm_ords[1])
     response_matrix = np.full((2 * n_bpms * n_turns, n_cms), np.nan)
-    SC.INJ.trackMode = TRACK_ORB  # TODO may modify SC (not a pure function)!
+    initial_mode, initial_turns, initial_particles = SC.INJ.trackMode, SC.INJ.nTurns, SC.INJ.nParticles
+    SC.INJ.trackMode = TRACK_ORB
 
     closed_orbits0 = bpm_reading(SC, bpm_ords=bpm_ords)[0]
     cnt = 0
@@ -81,6 +82,7 @@ def measure_closed_orbit_response_matrix(SC, bpm_ords, cm_ords, dkick=1e-5):
             SC.set_cm_setpoints(cm_ord, initial_setpoint, skewness=bool(n_dim))
             response_matrix[:, cnt] = np.ravel((closed_orbits1 - closed_orbits0) / real_kick)
             cnt = cnt + 1
+    SC.INJ.trackMode, SC.INJ.nTurns, SC.INJ.nParticles = initial_mode, initial_turns, initial_particles
     return response_matrix
 
 
-- 
2.43.0


From 597a6107d9209c3cc44e274463d50bfde75daf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:23 +0000
Subject: [PATCH 46/52] fix: LOCO Jacobian left magnets changed which were
 clipped or not set additively, affecting the magnets after them

---
 pySC/correction/loco.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index b2d9e73..1043ed5 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -2,11 +2,11 @@ import at
 import numpy as np
 import multiprocessing
 from pySC.lattice_properties.response_model import SCgetModelRM, SCgetModelDispersion
-from pySC.core.constants import SETTING_ADD, TRACK_ORB
+from pySC.core.constants import NUM_TO_AB, SETTING_ABS, SETTING_ADD, TRACK_ORB
 from pySC.core.beam import bpm_reading
 import matplotlib.pyplot as plt
 from scipy.optimize import least_squares
-from pySC.utils import logging_tools, sc_tools
+from pySC.utils import at_wrapper, logging_tools, sc_tools
 LOGGER = logging_tools.get_logger(__name__)
 
 
@@ -42,12 +42,13 @@ def generating_quads_response_matrices(args):
     (quad_index, SC, C_model, correctors_kick, used_cor_indexes, used_bpm_indexes, dk, trackMode, useIdealRing,
      skewness, order, method, includeDispersion, rf_step, cav_ords) = args
     LOGGER.debug(f'generating response to quad of index {quad_index}')
+    initial_setpoint = at_wrapper.atgetfieldvalues(SC.RING, np.ravel(quad_index), f"SetPoint{NUM_TO_AB[int(skewness)]}", order)
     if not includeDispersion:
         SC.set_magnet_setpoints(quad_index, dk, skewness, order, method)
         C_measured = SCgetModelRM(SC, used_bpm_indexes, used_cor_indexes, dkick=correctors_kick,
                                   useIdealRing=useIdealRing,
                                   trackMode=trackMode)
-        SC.set_magnet_setpoints(quad_index, -dk, skewness, order, method)
+        SC.set_magnet_setpoints(quad_index, initial_setpoint, skewness, order, SETTING_ABS)
         return C_measured - C_model
 
     dispersion_model = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step, useIdealRing=useIdealRing)
@@ -55,7 +56,7 @@ def generating_quads_response_matrices(args):
     C_measured = SCgetModelRM(SC, used_bpm_indexes, used_cor_indexes, dkick=correctors_kick, useIdealRing=useIdealRing,
                               trackMode=trackMode)
     dispersion_meas = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step, useIdealRing=useIdealRing)
-    SC.set_magnet_setpoints(quad_index, -dk, skewness, order, method)
+    SC.set_magnet_setpoints(quad_index, initial_setpoint, skewness, order, SETTING_ABS)
     return np.hstack((C_measured - C_model, (dispersion_meas - dispersion_model).reshape(-1, 1)))
 
 
-- 
2.43.0


From 417a191187ef30bdf15948c1db3589591422d66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:23 +0000
Subject: [PATCH 47/52] fix: SCgetModelRING shared the apertures with the
 machine

---
 pySC/lattice_properties/response_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 624beb3..3bc4a24 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -166,9 +166,9 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
             ring[ord].PolynomB[0] = 0.0
         if includeAperture:
             if hasattr(SC.RING[ord], 'EApertures'):
-                ring[ord].EApertures = SC.RING[ord].EApertures
+                ring[ord].EApertures = copy.deepcopy(SC.RING[ord].EApertures)
             if hasattr(SC.RING[ord], 'RApertures'):
-                ring[ord].RApertures = SC.RING[ord].RApertures
+                ring[ord].RApertures = copy.deepcopy(SC.RING[ord].RApertures)
         if ord in SC.ORD.RF:
             for field in RF_PROPERTIES:
                 setattr(ring[ord], field, getattr(SC.RING[ord], f"{field}SetPoint"))
-- 
2.43.0


From 2950c1126186784a784ed50329092acb81d72377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:23 +0000
Subject: [PATCH 48/52] fix: registered uncertainties were shared between
 elements and with the arrays of the caller

---
 pySC/core/simulated_commissioning.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 27e5383..9a481a4 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -127,7 +127,7 @@ class SimulatedCommissioning:
         for ind in np.unique(ords):
             if ind not in self.SIG.BPM.keys():
                 self.SIG.BPM[ind] = DotDict()
-            self.SIG.BPM[ind].update(kwargs)
+            self.SIG.BPM[ind].update(copy.deepcopy(kwargs))
 
             self.RING[ind].Noise = np.zeros(2)
             self.RING[ind].NoiseCO = np.zeros(2)
@@ -185,7 +185,7 @@ class SimulatedCommissioning:
         for ind in np.unique(ords):
             if ind not in self.SIG.RF.keys():
                 self.SIG.RF[ind] = DotDict()
-            self.SIG.RF[ind].update(kwargs)
+            self.SIG.RF[ind].update(copy.deepcopy(kwargs))
             for field in RF_PROPERTIES:
                 setattr(self.RING[ind], f"{field}SetPoint", getattr(self.RING[ind], field))
                 setattr(self.RING[ind], f"{field}Offset", 0)
@@ -325,7 +325,7 @@ class SimulatedCommissioning:
         for ind in ords:
             if ind not in self.SIG.Magnet.keys():
                 self.SIG.Magnet[ind] = DotDict()
-            self.SIG.Magnet[ind].update(nvpairs)
+            self.SIG.Magnet[ind].update(copy.deepcopy(nvpairs))
         # TODO Correctors
             for ab in AB:
                 order = len(getattr(self.RING[ind], f"Polynom{ab}"))
@@ -434,7 +434,7 @@ class SimulatedCommissioning:
             self.SIG.Support[ind] = DotDict({key: value for key, value in self.SIG.Support.get(ind, {}).items()
                                              if not key.startswith(support_type)})
         for ord_pair in support_ords.T:
-            for key, value in kwargs.items():
+            for key, value in copy.deepcopy(kwargs).items():
                 if isinstance(value, list):
                     if value[0].ndim == 1:
                         self.SIG.Support[ord_pair[0]][f"{support_type}{key}"] = value
-- 
2.43.0


From a524d0e024111ce3910cfffe516071145f18b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:23 +0000
Subject: [PATCH 49/52] fix: the noise of a BPM was the same array as its
 registered value

---
 pySC/core/simulated_commissioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 9a481a4..8da4334 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -549,7 +549,7 @@ class SimulatedCommissioning:
         for ind in classdef_tools.intersect(self.ORD.BPM, self.SIG.BPM.keys()):
             for field in self.SIG.BPM[ind]:
                 if re.search('Noise', field):
-                    setattr(self.RING[ind], field, self.SIG.BPM[ind][field])
+                    setattr(self.RING[ind], field, copy.deepcopy(self.SIG.BPM[ind][field]))
                 else:
                     setattr(self.RING[ind], field, classdef_tools.randn_cutoff(self.SIG.BPM[ind][field], nsigmas))
         # Magnet
-- 
2.43.0


From ee21b5e70035f153b3f06396cbd559609370834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:34 +0000
Subject: [PATCH 50/52] fix: dipole compensation acts only on the normal
 gradient of combined function magnets

---
 pySC/core/simulated_commissioning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 8da4334..1cc27ec 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -942,14 +942,14 @@ class SimulatedCommissioning:
                 LOGGER.info(f'SkewLim \n Skew quadrupole (ord: {ord}) is clipping')
                 setpoints_1d[i] = np.sign(setpoints_1d[i]) * self.RING[ord].SkewQuadLimit
             # TODO should check CF magnets
-            if dipole_compensation and order == 1:  # quad  # TODO check also skewness?
+            if dipole_compensation and order == 1 and not skewness:  # normal quadrupole, which bends as well
                 self._dipole_compensation(ord, setpoints_1d[i])
             getattr(self.RING[ord], f"{SETPOINT}{letter}")[order] = setpoints_1d[i]
 
         self.update_magnets(ords_1d)
 
     def _dipole_compensation(self, ord, setpoint):
-        if getattr(self.RING[ord], 'BendingAngle', 0) != 0 and ord in self.ORD.HCM:
+        if getattr(self.RING[ord], 'BendingAngle', 0) != 0 and self.RING[ord].NomPolynomB[1] != 0 and ord in self.ORD.HCM:
             self.set_cm_setpoints(
                 ord,
                 (setpoint - self.RING[ord].SetPointB[1]) / self.RING[ord].NomPolynomB[1] * self.RING[ord].BendingAngle,
-- 
2.43.0


From b54b26bf4bf2d7e5af41fc39fc0991e8681d2eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:34 +0000
Subject: [PATCH 51/52] fix: BBA with skew or sextupole components moved BPM
 offsets by the shift of gradient dipoles

---
 pySC/correction/bba.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index 6dc4cca..209336a 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -176,7 +176,8 @@ def _data_evaluation(SC, bpm_pos, trajectories, mag_vec, n_dim, m_ord, par):
         return np.nan, np.nan
     offset_change = stats.weighted_mean(center[mask], center_err[mask])
     offset_change_error = stats.weighted_error(center[mask]-offset_change, center_err[mask]) / np.sqrt(stats.effective_sample_size(center[mask], stats.weights_from_errors(center_err[mask])))
-    if not par.dipole_compensation and n_dim == 0 and SC.RING[m_ord].NomPolynomB[1] != 0:
+    if (not par.dipole_compensation and n_dim == 0 and par.magnet_order == 1 and not par.skewness
+            and SC.RING[m_ord].NomPolynomB[1] != 0):
         offset_change += getattr(SC.RING[m_ord], 'BendingAngle', 0) / SC.RING[m_ord].NomPolynomB[1] / SC.RING[m_ord].Length
     return offset_change, offset_change_error
 
-- 
2.43.0


From 1fd6f759a389db9a5f358740673ebce35ae12cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:34 +0000
Subject: [PATCH 52/52] fix: static phase error was folded at half an RF
 wavelength in metres instead of half a period

---
 pySC/correction/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/rf.py b/pySC/correction/rf.py
index 6d8bf25..47bb5c0 100644
--- a/pySC/correction/rf.py
+++ b/pySC/correction/rf.py
@@ -109,7 +109,7 @@ def phase_and_energy_error(SC, cav_ords):
     """This is not a simple observable in reality."""
     lamb = SPEED_OF_LIGHT / SC.RING[cav_ords[0]].Frequency
     orbit6 = at_wrapper.findorbit6(SC.RING)[0]
-    phase_error = _fold_phase((orbit6[5] - SC.INJ.Z0[5]) / lamb, lamb) * 360
+    phase_error = _fold_phase(orbit6[5] - SC.INJ.Z0[5], lamb) / lamb * 360
     energy_error = SC.INJ.Z0[4] - orbit6[4]
     LOGGER.info(f'Static phase error {phase_error:.0f} deg')
     LOGGER.info(f'Energy error {1E2 * energy_error:.2f}%')
-- 
2.43.0

