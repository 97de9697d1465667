From f2fde638e70796709e85ba734259d95021f28a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:03 +0000
Subject: [PATCH 01/26] fix: MSCD honours the requested dimension

---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index e123f40..b806aef 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -748,7 +748,7 @@ class MSCDBootstrap(Bootstrap):
             disp_slice = self._displacements[i][:, :, self._slice].reshape(self._displacements[i].shape[0],
                                                                            self._displacements[i].shape[1], self.dims)
             d_squared = np.sum(disp_slice**2, axis=-1)
-            sq_chg_motion = np.sum(np.sum((ionic_charge * self._displacements[i].T).T, axis=0)**2, axis=-1)
+            sq_chg_motion = np.sum(np.sum((ionic_charge * disp_slice.T).T, axis=0)**2, axis=-1)
             if sq_chg_motion.size <= 1:
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
-- 
2.43.0


From e02e97e82b255d881b6b99fe52eff92abd753762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:03 +0000
Subject: [PATCH 02/26] fix: sub-sample the number of independent observations
 with the time intervals

---
 kinisi/diffusion.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index b806aef..b38ed86 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -68,7 +68,7 @@ class Bootstrap:
         self._n_bootstrap = np.array([])
         self._s_bootstrap = np.array([])
         self._v_bootstrap = np.array([])
-        self._n_o = n_o
+        self._n_o = n_o[::sub_sample_dt]
         self._ngp = np.array([])
         self._sub_sample_dt = sub_sample_dt
         self._dimension = dimension
@@ -576,7 +576,8 @@ class MSDBootstrap(Bootstrap):
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
             if bootstrap:
-                distro = self.sample_until_normal(d_squared, n_o[i], n_resamples, max_resamples, alpha, random_state)
+                distro = self.sample_until_normal(d_squared, self._n_o[i], n_resamples, max_resamples, alpha,
+                                                  random_state)
                 self._distributions.append(distro)
                 self._n_bootstrap = np.append(self._n_bootstrap, np.mean(distro.samples))
                 self._v_bootstrap = np.append(self._v_bootstrap, np.var(distro.samples, ddof=1))
@@ -595,7 +596,7 @@ class MSDBootstrap(Bootstrap):
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             else:
                 self._n = np.append(self._n, d_squared.mean())
-                self._v = np.append(self._v, np.var(d_squared, ddof=1) / n_o[i])
+                self._v = np.append(self._v, np.var(d_squared, ddof=1) / self._n_o[i])
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared))
             self._dt = np.append(self._dt, self._delta_t[i])
@@ -661,8 +662,8 @@ class MSTDBootstrap(Bootstrap):
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
             if bootstrap:
-                distro = self.sample_until_normal(coll_motion, n_o[i] / d_squared.shape[0], n_resamples, max_resamples,
-                                                  alpha, random_state)
+                distro = self.sample_until_normal(coll_motion, self._n_o[i] / d_squared.shape[0], n_resamples,
+                                                  max_resamples, alpha, random_state)
                 self._distributions.append(distro)
                 self._n_bootstrap = np.append(self._n_bootstrap, np.mean(distro.samples))
                 self._v_bootstrap = np.append(self._v_bootstrap, np.var(distro.samples, ddof=1))
@@ -681,7 +682,7 @@ class MSTDBootstrap(Bootstrap):
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             else:
                 self._n = np.append(self._n, coll_motion.mean())
-                self._v = np.append(self._v, np.var(coll_motion, ddof=1) / (n_o[i] / d_squared.shape[0]))
+                self._v = np.append(self._v, np.var(coll_motion, ddof=1) / (self._n_o[i] / d_squared.shape[0]))
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared.flatten()))
             self._dt = np.append(self._dt, self._delta_t[i])
@@ -753,7 +754,7 @@ class MSCDBootstrap(Bootstrap):
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
             if bootstrap:
-                distro = self.sample_until_normal(sq_chg_motion, n_o[i] / d_squared.shape[0], n_resamples,
+                distro = self.sample_until_normal(sq_chg_motion, self._n_o[i] / d_squared.shape[0], n_resamples,
                                                   max_resamples, alpha, random_state)
                 self._distributions.append(distro)
                 self._n_bootstrap = np.append(self._n_bootstrap, np.mean(distro.samples))
@@ -773,7 +774,7 @@ class MSCDBootstrap(Bootstrap):
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             else:
                 self._n = np.append(self._n, sq_chg_motion.mean())
-                self._v = np.append(self._v, np.var(sq_chg_motion, ddof=1) / (n_o[i] / d_squared.shape[0]))
+                self._v = np.append(self._v, np.var(sq_chg_motion, ddof=1) / (self._n_o[i] / d_squared.shape[0]))
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared.flatten()))
             self._dt = np.append(self._dt, self._delta_t[i])
-- 
2.43.0


From 07391f77104818369cc39768c236d80f5edbe0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:03 +0000
Subject: [PATCH 03/26] fix: do not sub-sample or resample again when restoring
 a bootstrap from a dictionary

---
 kinisi/diffusion.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index b38ed86..db4bd07 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -141,11 +141,13 @@ class Bootstrap:
 
         :return: New :py:class`Bootstrap` object.
         """
-        boot = cls(my_dict['delta_t'],
-                   my_dict['displacements'],
-                   my_dict['n_o'],
-                   sub_sample_dt=my_dict['sub_sample_dt'],
-                   dimension=my_dict['dimension'])
+        boot = cls.__new__(cls)
+        Bootstrap.__init__(boot,
+                           my_dict['delta_t'],
+                           my_dict['displacements'],
+                           my_dict['n_o'],
+                           dimension=my_dict['dimension'])
+        boot._sub_sample_dt = my_dict['sub_sample_dt']
         boot._max_obs = my_dict['max_obs']
         boot._euclidian_displacements = [Distribution.from_dict(d) for d in my_dict['euclidian_displacements']]
         boot._dt = my_dict['dt']
-- 
2.43.0


From c8bbeb2cdfab551f6d83a07ede9430bc8560f883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:03 +0000
Subject: [PATCH 04/26] fix: single-origin displacements span the stated time
 interval

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 3543f7a..61ae2e9 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -200,7 +200,7 @@ class Parser:
                               "https://kinisi.readthedocs.io/en/latest/memory_limit.html).")
         for i, time_interval in enumerate(iterator):
             if self.sampling == 'single-origin':
-                disp = drift_corrected[self.indices, i:i + 1]
+                disp = drift_corrected[self.indices, time_interval - 1:time_interval]
                 if np.multiply(*disp[:, ::time_interval].shape[:2]) <= 1:
                     continue
                 disp_3d.append(disp)
-- 
2.43.0


From b71e6c29784b0b632d58a3dc9286a1b985f64aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:41 +0000
Subject: [PATCH 05/26] fix: single-origin sampling has one independent
 observation per atom

---
 kinisi/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 61ae2e9..3953518 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -218,7 +218,10 @@ class Parser:
                 raise ValueError(f"The sampling option of {self.sampling} is unrecognized, "
                                  "please use 'multi-origin' or 'single-origin'.")
             # n_samples = np.append(n_samples, np.multiply(*disp[:, ::time_interval].shape[:2]))
-            n_samples = np.append(n_samples, disp.shape[0] * time_intervals[-1] / time_interval)
+            if self.sampling == 'single-origin':
+                n_samples = np.append(n_samples, disp.shape[0])
+            else:
+                n_samples = np.append(n_samples, disp.shape[0] * time_intervals[-1] / time_interval)
         return delta_t, disp_3d, n_samples
 
 
-- 
2.43.0


From 1001a6f45976fad1cc4a1051a7beef2233e85cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:41 +0000
Subject: [PATCH 06/26] fix: ASE time intervals account for sub_sample_traj

---
 kinisi/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 3953518..d939792 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -291,8 +291,8 @@ class ASEParser(Parser):
 
         self.coords_check = coords[0]
 
-        super().__init__(self.get_disp(coords, latt, progress=progress), indices[0], indices[1], time_step, step_skip,
-                         min_dt, max_dt, n_steps, spacing, sampling, memory_limit, progress)
+        super().__init__(self.get_disp(coords, latt, progress=progress), indices[0], indices[1], time_step,
+                         step_skip * sub_sample_traj, min_dt, max_dt, n_steps, spacing, sampling, memory_limit, progress)
         self._volume = structure.get_volume()
 
     @staticmethod
-- 
2.43.0


From 43976a1fd360a4a402df539ea46b8eae1336868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:41 +0000
Subject: [PATCH 07/26] fix: framework_indices can be combined with
 specie_indices

---
 kinisi/parser.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index d939792..461ab64 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -756,12 +756,11 @@ def _get_framework(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
         diffusion and indices of framework atoms. 
     """
     if isinstance(framework_indices, (list, tuple)):
-        drift_indices = np.array(framework_indices) - 1
+        drift_indices = framework_indices
     else:
         drift_indices = []
-
-    for i, site in enumerate(structure):
-        if i not in indices:
-            drift_indices.append(i)
+        for i, site in enumerate(structure):
+            if i not in indices:
+                drift_indices.append(i)
 
     return indices, drift_indices
-- 
2.43.0


From edb5891f42d6a41cab7603bd2efcbec651138304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:41 +0000
Subject: [PATCH 08/26] fix: an empty framework_indices list can be combined
 with molecules

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 461ab64..b0b3cc2 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -702,7 +702,7 @@ def _get_molecules(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
     n_molecules = indices.shape[0]
 
     if isinstance(framework_indices, (list, tuple)):
-        drift_indices = np.array(framework_indices) - 1
+        drift_indices = np.array(framework_indices, dtype=int) - 1
     else:
         for i, site in enumerate(structure):
             if i not in indices:
-- 
2.43.0


From 6a5e7876bc6a9503cbbae9bbdf74c03e02222f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:41 +0000
Subject: [PATCH 09/26] fix: allow an integer time_step for pymatgen
 trajectories

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index b0b3cc2..936db26 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -439,7 +439,7 @@ class PymatgenParser(Parser):
                          progress=progress)
         self._volume = structure.volume
         warnings.warn("UserWarning: Be aware that the expected input unit for 'time_step' is femtoseconds, not picoseconds.")
-        self.delta_t *= 1e-3
+        self.delta_t = self.delta_t * 1e-3
 
     @staticmethod
     def get_structure_coords_latt(
-- 
2.43.0


From b322e2040df1f5980b62bd37a344b3cb1c753e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:41 +0000
Subject: [PATCH 10/26] fix: linear time intervals are unique

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 936db26..9133502 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -161,7 +161,7 @@ class Parser:
         if min_dt == 0:
             min_dt = 1
         if spacing == 'linear':
-            return np.linspace(min_dt, max_dt, n_steps, dtype=int)
+            return np.unique(np.linspace(min_dt, max_dt, n_steps, dtype=int))
         elif spacing == 'logarithmic':
             return np.unique(np.geomspace(min_dt, max_dt, n_steps, dtype=int))
         else:
-- 
2.43.0


From 05e48670bc648d0b946ed9a37a63109bc5630185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:41 +0000
Subject: [PATCH 11/26] fix: min_dt and max_dt bound the time intervals despite
 floating point error

---
 kinisi/parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 9133502..95b5a83 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -81,7 +81,7 @@ class Parser:
             self.max_dt = drift_corrected.shape[1] * (self.step_skip * self.time_step)
         if self.min_dt is None:
             self.min_dt = self.step_skip * self.time_step
-        min_dt_int = int(self.min_dt / (self.step_skip * self.time_step))
+        min_dt_int = int(np.ceil(np.round(self.min_dt / (self.step_skip * self.time_step), 6)))
         if min_dt_int >= drift_corrected.shape[1]:
             raise ValueError('The passed min_dt is greater than or equal to the maximum simulation length.')
         if n_steps > (drift_corrected.shape[1] - min_dt_int) + 1:
@@ -156,8 +156,9 @@ class Parser:
 
         :return: Smoothed time intervals.
         """
-        min_dt = int(self.min_dt / (self.step_skip * self.time_step))
-        max_dt = int(self.max_dt / (self.step_skip * self.time_step))
+        # Rounding removes the floating point error of the division, so that a multiple of the step is found exactly
+        min_dt = int(np.ceil(np.round(self.min_dt / (self.step_skip * self.time_step), 6)))
+        max_dt = int(np.round(self.max_dt / (self.step_skip * self.time_step), 6))
         if min_dt == 0:
             min_dt = 1
         if spacing == 'linear':
-- 
2.43.0


From da928a2c9784bd8588ca4cad0b1c0c8d289e2925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:41 +0000
Subject: [PATCH 12/26] fix: only the file extension is replaced when saving
 and loading

---
 kinisi/analyzer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index aad495e..4fbe1ae 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -6,6 +6,7 @@ This module contains the base class for the different :py:class:`Analyzer` objec
 # Distributed under the terms of the MIT License
 # author: Andrew R. McCluskey (arm61)
 
+from os.path import splitext
 from typing import Union, List
 import numpy as np
 from kinisi.parser import MDAnalysisParser, PymatgenParser, ASEParser
@@ -36,7 +37,7 @@ class Analyzer:
 
         :param filename: Name for the file, no file extension is required and if one if given it is replaced with .hdf.
         """
-        filename = filename.rsplit('.', 1)[0] + '.hdf'
+        filename = splitext(filename)[0] + '.hdf'
         my_dict = self.to_dict()
         try:
             import h5py
@@ -57,7 +58,7 @@ class Analyzer:
 
         :return: An :py:class:`Analyzer` object from the file.
         """
-        filename = filename.rsplit('.', 1)[0] + '.hdf'
+        filename = splitext(filename)[0] + '.hdf'
         try:
             import h5py
         except ModuleNotFoundError:  # pragma: no cover
-- 
2.43.0


From 9124a97ea1167e22e967fd53616262469dfa12a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:41 +0000
Subject: [PATCH 13/26] fix: n_i reports the number of independent trajectories

---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index db4bd07..6e61d52 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -226,7 +226,7 @@ class Bootstrap:
         """
         :return: The number of independent trajectories as a function of :py:attr:`dt`.
         """
-        return self._n_i
+        return self._n_o
 
     @property
     def intercept(self) -> Union[Distribution, None]:
-- 
2.43.0


From 8e161adbab62a03e598d10e1790eab0abb47bfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:41 +0000
Subject: [PATCH 14/26] fix: SuperArrhenius does not change the bounds it is
 given

---
 kinisi/arrhenius.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/arrhenius.py b/kinisi/arrhenius.py
index 67a9af9..6078e3d 100644
--- a/kinisi/arrhenius.py
+++ b/kinisi/arrhenius.py
@@ -116,7 +116,7 @@ class SuperArrhenius(Relationship):
                                                                                                  (0, None)],
                  diffusion_error: np.ndarray = None):
         if bounds[2][1] is None:
-            bounds[2] = (0, temperature[0])
+            bounds = (bounds[0], bounds[1], (0, temperature[0]))
         super().__init__(super_arrhenius, temperature, diffusion, bounds, ordinate_error=diffusion_error)
 
     @property
-- 
2.43.0


From 496db878e479a2ae51dadb88c3a77fb4c5673728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:14 +0000
Subject: [PATCH 15/26] fix: results without a fitted intercept can be sampled
 and plotted

---
 kinisi/analyzer.py                | 5 ++++-
 kinisi/conductivity_analyzer.py   | 2 ++
 kinisi/diffusion.py               | 4 +++-
 kinisi/diffusion_analyzer.py      | 2 ++
 kinisi/jump_diffusion_analyzer.py | 2 ++
 5 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index 4fbe1ae..1ba8d5a 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -310,7 +310,10 @@ class Analyzer:
         :return: A distribution of samples for the linear relationship that can be used for easy
         plotting of credible intervals.
         """
-        return self._diff.gradient.samples * self.dt[:, np.newaxis] + self._diff.intercept.samples
+        distribution = self._diff.gradient.samples * self.dt[:, np.newaxis]
+        if self._diff.intercept is not None:
+            distribution = distribution + self._diff.intercept.samples
+        return distribution
 
     @property
     def dt(self) -> np.ndarray:
diff --git a/kinisi/conductivity_analyzer.py b/kinisi/conductivity_analyzer.py
index f4e405b..c8a495b 100644
--- a/kinisi/conductivity_analyzer.py
+++ b/kinisi/conductivity_analyzer.py
@@ -263,4 +263,6 @@ class ConductivityAnalyzer(Analyzer):
         """
         :return: sampling flatchain
         """
+        if self.intercept is None:
+            return np.array([self.sigma.samples]).T
         return np.array([self.sigma.samples, self.intercept.samples]).T
diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 6e61d52..ba81a29 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -517,7 +517,9 @@ class Bootstrap:
         else:
             iterator = samples_to_draw
         for i, n in iterator:
-            mu = self.gradient.samples[n] * self._dt[diff_regime:] + self.intercept.samples[n]
+            mu = self.gradient.samples[n] * self._dt[diff_regime:]
+            if self.intercept is not None:
+                mu = mu + self.intercept.samples[n]
             mv = multivariate_normal(mean=mu, cov=self._covariance_matrix, allow_singular=True)
             ppd[i] = mv.rvs(n_predictive_samples)
         return ppd.reshape(-1, self._dt[diff_regime:].size)
diff --git a/kinisi/diffusion_analyzer.py b/kinisi/diffusion_analyzer.py
index 56dee3c..33663cb 100644
--- a/kinisi/diffusion_analyzer.py
+++ b/kinisi/diffusion_analyzer.py
@@ -242,4 +242,6 @@ class DiffusionAnalyzer(Analyzer):
         """
         :return: sampling flatchain
         """
+        if self.intercept is None:
+            return np.array([self.D.samples]).T
         return np.array([self.D.samples, self.intercept.samples]).T
diff --git a/kinisi/jump_diffusion_analyzer.py b/kinisi/jump_diffusion_analyzer.py
index 4503496..23afd73 100644
--- a/kinisi/jump_diffusion_analyzer.py
+++ b/kinisi/jump_diffusion_analyzer.py
@@ -245,4 +245,6 @@ class JumpDiffusionAnalyzer(Analyzer):
         """
         :return: sampling flatchain
         """
+        if self.intercept is None:
+            return np.array([self.D_J.samples]).T
         return np.array([self.D_J.samples, self.intercept.samples]).T
-- 
2.43.0


From a106e250d8c33371d089a531abba97e93f723ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:14 +0000
Subject: [PATCH 16/26] fix: identical trajectories do not multiply the
 conductivity

---
 kinisi/conductivity_analyzer.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/kinisi/conductivity_analyzer.py b/kinisi/conductivity_analyzer.py
index c8a495b..85dc018 100644
--- a/kinisi/conductivity_analyzer.py
+++ b/kinisi/conductivity_analyzer.py
@@ -221,6 +221,18 @@ class ConductivityAnalyzer(Analyzer):
                                                   **uncertainty_params)
         return cond_anal
 
+    @staticmethod
+    def _stack_trajectories(u: list) -> List[np.ndarray]:
+        """
+        If more than one trajectory is given, then they are additional observations of the charge motion in one
+        simulation cell (the ions of different trajectories do not share a cell, which :py:attr:`volume` describes).
+
+        :param u: Results from the parsing of each trajectory.
+
+        :return: The stacked displacement list.
+        """
+        return [np.concatenate([j.disp_3d[i] for j in u], axis=1) for i in range(len(u[0].disp_3d))]
+
     def conductivity(self, start_dt: float, temperature: float, conductivity_params: Union[dict, None] = None):
         """
         Calculate the jump diffusion coefficicent using the bootstrap-GLS methodology.
-- 
2.43.0


From beff0ed5957299cdb44dad7d312a28da2cd8c5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:35 +0000
Subject: [PATCH 17/26] fix: framework_indices can be a tuple

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 95b5a83..386dcdf 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -141,7 +141,7 @@ class Parser:
         """
         # drift corrected position
         if len(drift_indices) > 0:
-            framework_disp = disp[drift_indices]
+            framework_disp = disp[np.asarray(drift_indices)]
             drift_corrected = disp - np.average(framework_disp, axis=0)[None, :, :]
         else:
             drift_corrected = disp
-- 
2.43.0


From 17face9f35d8153f28f3395341d0f27f5a081819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:06 +0000
Subject: [PATCH 18/26] fix: SuperArrhenius keeps a given lower bound of T0

---
 kinisi/arrhenius.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/arrhenius.py b/kinisi/arrhenius.py
index 6078e3d..6fd9408 100644
--- a/kinisi/arrhenius.py
+++ b/kinisi/arrhenius.py
@@ -116,7 +116,7 @@ class SuperArrhenius(Relationship):
                                                                                                  (0, None)],
                  diffusion_error: np.ndarray = None):
         if bounds[2][1] is None:
-            bounds = (bounds[0], bounds[1], (0, temperature[0]))
+            bounds = (bounds[0], bounds[1], (bounds[2][0], temperature[0]))
         super().__init__(super_arrhenius, temperature, diffusion, bounds, ordinate_error=diffusion_error)
 
     @property
-- 
2.43.0


From 98333386e2015e52d98ce7410c0a79f2916e49c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:28 +0000
Subject: [PATCH 19/26] fix: covariance reconditioning uses the largest
 eigenvalue of the symmetric matrix

---
 kinisi/diffusion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index ba81a29..b9f9917 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -885,9 +885,9 @@ def minimum_eigenvalue_method(matrix: np.ndarray, cond_max=1e16) -> np.ndarray:
 
     :return: Reconditioned matrix.
     """
-    eigenthings = np.linalg.eig(matrix)
+    eigenthings = np.linalg.eigh(matrix)
     eigenvalues = eigenthings.eigenvalues
     new_eigenvalues = np.copy(eigenvalues)
-    T = eigenvalues[0] / cond_max
+    T = eigenvalues.max() / cond_max
     new_eigenvalues[np.where(new_eigenvalues < T)] = T
     return np.real(eigenthings.eigenvectors @ np.diag(new_eigenvalues) @ eigenthings.eigenvectors.T)
-- 
2.43.0


From a55560222aa972c439a50f7e8b8c1bb6e44dff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:17 +0000
Subject: [PATCH 20/26] fix: the modelled variance is the least-squares
 solution whatever the units

---
 kinisi/diffusion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index b9f9917..d9e0905 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -12,7 +12,7 @@ from typing import List, Union, Any
 import numpy as np
 from scipy.stats import normaltest, linregress, multivariate_normal
 from scipy.linalg import pinvh
-from scipy.optimize import minimize, curve_fit
+from scipy.optimize import minimize
 import scipy.constants as const
 import tqdm
 from uravu.distribution import Distribution
@@ -418,7 +418,9 @@ class Bootstrap:
             return a / self._n_o[diff_regime:] * dt**2
 
         if self._model:
-            self._popt, _ = curve_fit(_model_variance, self.dt[diff_regime:], self._v[diff_regime:], bounds=(0, np.inf))
+            # The model is linear in its coefficient, so the least-squares solution has a closed form
+            unit_v = _model_variance(self.dt[diff_regime:], 1)
+            self._popt = np.array([np.dot(unit_v, self._v[diff_regime:]) / np.dot(unit_v, unit_v)])
             self._model_v = _model_variance(self.dt[diff_regime:], *self._popt)
         else:
             self._model_v = self._v[diff_regime:]
-- 
2.43.0


From c752e0d3786085e7bc477d23e681c4721bf36083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:29 +0000
Subject: [PATCH 21/26] fix: sampling of the line never starts from a negative
 gradient

---
 kinisi/diffusion.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index d9e0905..b6fb59a 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -380,9 +380,13 @@ class Bootstrap:
             return -log_likelihood(*args)
 
         if fit_intercept:
-            max_likelihood = minimize(nll, np.array([slope, intercept])).x
+            initial = np.array([slope, intercept])
         else:
-            max_likelihood = minimize(nll, np.array([slope])).x
+            initial = np.array([slope])
+        max_likelihood = minimize(nll, initial).x
+        if not np.isfinite(log_likelihood(max_likelihood)):
+            # The unbounded optimisation may end at a negative gradient, from where the sampling could not move
+            max_likelihood = initial
         pos = max_likelihood + max_likelihood * 1e-3 * np.random.randn(n_walkers, max_likelihood.size)
         sampler = EnsembleSampler(*pos.shape, log_likelihood)
         # Waiting on https://github.com/dfm/emcee/pull/376
-- 
2.43.0


From 352e891d30068c2dddd98a6277a54d24e84e0a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:40 +0000
Subject: [PATCH 22/26] fix: numpy scalars can be saved

---
 kinisi/analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index 1ba8d5a..a9472a9 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -372,11 +372,11 @@ def _dict_to_group(h5file: 'h5py._hl.files.File', path: str, my_dict: dict):
     :param my_dict: Dict to make datasets from.
     """
     for key, value in my_dict.items():
-        if isinstance(value, (np.ndarray, int, float, str, bytes)):
+        if isinstance(value, (np.ndarray, np.generic, int, float, str, bytes)):
             h5file[path + key] = value
         elif isinstance(value, list):
             for i, d in enumerate(value):
-                if isinstance(d, (np.ndarray, int, float, str, bytes)):
+                if isinstance(d, (np.ndarray, np.generic, int, float, str, bytes)):
                     h5file[path + key + f'/list{i}'] = d
                 elif isinstance(d, dict):
                     _dict_to_group(h5file, path + key + f'/list{i}' + '/', d)
-- 
2.43.0


From 8ba049394486e3ba1a0be1ab6d9bc3cc38a82a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:21 +0000
Subject: [PATCH 23/26] fix: logarithmic intervals are never below min_dt

---
 kinisi/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 386dcdf..5e06063 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -164,7 +164,8 @@ class Parser:
         if spacing == 'linear':
             return np.unique(np.linspace(min_dt, max_dt, n_steps, dtype=int))
         elif spacing == 'logarithmic':
-            return np.unique(np.geomspace(min_dt, max_dt, n_steps, dtype=int))
+            # Truncation may put a value just below the minimum
+            return np.unique(np.clip(np.geomspace(min_dt, max_dt, n_steps, dtype=int), min_dt, max_dt))
         else:
             raise ValueError("Only linear or logarithmic spacing is allowed.")
 
-- 
2.43.0


From 6fe6a4466b170c1819d14d26c1768c11e9f99895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:08 +0000
Subject: [PATCH 24/26] fix: single precision trajectories are unwrapped
 without accumulating rounding errors

---
 kinisi/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 5e06063..3710285 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -126,7 +126,8 @@ class Parser:
                               latt[1:])  # calculated the correction needed for the change in cell dimensions
         unwrapped_disp = wrapped_diff - diff_diff
 
-        return np.cumsum(unwrapped_disp, axis=1)
+        # accumulate in double precision, so that rounding errors of single precision input do not add up over the trajectory
+        return np.cumsum(unwrapped_disp, axis=1, dtype=np.float64).astype(unwrapped_disp.dtype)
 
     @staticmethod
     def correct_drift(drift_indices: np.ndarray, disp: np.ndarray) -> np.ndarray:
-- 
2.43.0


From b67ba0a8eb0bff1ba8fca441505b06d0746754c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:34 +0000
Subject: [PATCH 25/26] fix: framework_indices given as an array is not ignored

---
 kinisi/parser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 3710285..600452c 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -356,7 +356,7 @@ class ASEParser(Parser):
         if len(indices) == 0:
             raise ValueError("There are no species selected to calculate the mean-squared displacement of.")
 
-        if isinstance(framework_indices, (list, tuple)):
+        if isinstance(framework_indices, (list, tuple, np.ndarray)):
             drift_indices = framework_indices
 
         return indices, drift_indices
@@ -508,7 +508,7 @@ class PymatgenParser(Parser):
         if len(indices) == 0:
             raise ValueError("There are no species selected to calculate the mean-squared displacement of.")
 
-        if isinstance(framework_indices, (list, tuple)):
+        if isinstance(framework_indices, (list, tuple, np.ndarray)):
             drift_indices = framework_indices
 
         return indices, drift_indices
@@ -671,7 +671,7 @@ class MDAnalysisParser(Parser):
         if len(indices) == 0:
             raise ValueError("There are no species selected to calculate the mean-squared displacement of.")
 
-        if isinstance(framework_indices, (list, tuple)):
+        if isinstance(framework_indices, (list, tuple, np.ndarray)):
             drift_indices = framework_indices
 
         return indices, drift_indices
@@ -704,7 +704,7 @@ def _get_molecules(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
 
     n_molecules = indices.shape[0]
 
-    if isinstance(framework_indices, (list, tuple)):
+    if isinstance(framework_indices, (list, tuple, np.ndarray)):
         drift_indices = np.array(framework_indices, dtype=int) - 1
     else:
         for i, site in enumerate(structure):
@@ -758,7 +758,7 @@ def _get_framework(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
     :return: Tuple containing: indices for the atoms in the trajectory used in the calculation of the
         diffusion and indices of framework atoms. 
     """
-    if isinstance(framework_indices, (list, tuple)):
+    if isinstance(framework_indices, (list, tuple, np.ndarray)):
         drift_indices = framework_indices
     else:
         drift_indices = []
-- 
2.43.0


From b00ca1b8e82617422b2e3f0d9a11c57ae2746544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:33 +0000
Subject: [PATCH 26/26] fix: warn of a non-normal resampled distribution only
 when it is not normal

---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index b6fb59a..5a12466 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -286,7 +286,7 @@ class Bootstrap:
             # values += _bayesian_bootstrap(array, n_samples, 100, random_state)
             values += _bootstrap(array, n_samples, 100, random_state)
             p_value = normaltest(values)[1]
-        if len(values) >= max_resamples:
+        if p_value < alpha:
             warnings.warn("The maximum number of resamples has been reached, and the distribution is not yet normal.")
         return Distribution(values)
 
-- 
2.43.0

