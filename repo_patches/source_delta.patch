From 1a540425192957ff50900b6dc20b31bf1095dbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 01/22] fix: shift_pm_pi wraps phase modulo 2*pi (operator
 precedence)

---
 tmdsimpy/utils/harmonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/harmonic.py b/tmdsimpy/utils/harmonic.py
index 2c9c509..8178b3e 100644
--- a/tmdsimpy/utils/harmonic.py
+++ b/tmdsimpy/utils/harmonic.py
@@ -705,7 +705,7 @@ def shift_pm_pi(phase):
     """
     phase = np.copy(phase)
     
-    phase = ((phase + np.pi) % 2*np.pi) - np.pi
+    phase = ((phase + np.pi) % (2*np.pi)) - np.pi
     
     return phase
 
-- 
2.43.0


From e2a625b948f6655578c87f34e35d9b56cdcefe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 02/22] fix: shooting state equation uses the total nonlinear
 force

The right hand side only included the last force in the list (and raised
a NameError for a system without nonlinear forces).
---
 tmdsimpy/vibration_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 6747e01..8bcdf20 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -2090,7 +2090,7 @@ def _shooting_state_space(t, UV_dUVdUV0, vib_sys, Fl, omega):
     # State Derivatives
     Udot = V
     
-    rhs = -(vib_sys.C @ V + vib_sys.K @ U + Fnl) + Fext
+    rhs = -(vib_sys.C @ V + vib_sys.K @ U + Fnltot) + Fext
     Minv = np.linalg.inv(vib_sys.M)
     Vdot = Minv @ rhs
     
-- 
2.43.0


From 0d9ea2b7186f787e457b0d289898e30729b936ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 03/22] fix: set_new_C without arguments leaves the damping
 unchanged, as documented

---
 tmdsimpy/vibration_system.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 8bcdf20..32dfcce 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -261,9 +261,7 @@ class VibrationSystem:
             C = ab[0]*self.M + ab[1]*self.K
             self.ab = ab
         
-        if C is None:
-            self.C = np.zeros_like(self.M)
-        else:
+        if not (C is None):
             self.C = C
         
         return
-- 
2.43.0


From 9585e0e8ad32044e2783054f7669380055c5ffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 04/22] fix: relative step and energy tolerances of the
 nonlinear solver were swapped

---
 tmdsimpy/jax/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/jax/solvers.py b/tmdsimpy/jax/solvers.py
index 5f7ca54..e9c921c 100644
--- a/tmdsimpy/jax/solvers.py
+++ b/tmdsimpy/jax/solvers.py
@@ -788,9 +788,9 @@ def _check_convg(check_list, tol_dict, r_curr, e_curr, u_curr, r_rel, e_rel, u_r
                 'xtol'    : u_curr, 
                 'rtol'    : r_curr,
                 'etol'    : e_curr,
-                'xtol_rel' : e_rel,
+                'xtol_rel' : u_rel,
                 'rtol_rel' : r_rel,
-                'etol_rel' : u_rel,
+                'etol_rel' : e_rel,
                 }
     
     for key in check_list:
-- 
2.43.0


From 9155ab726a9e973f6fae0a3c6a1dd7e42cd80e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 05/22] fix: eigs does not modify the (default) subset_by_index
 argument

---
 tmdsimpy/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/solvers.py b/tmdsimpy/solvers.py
index 2ad936d..6a49f07 100644
--- a/tmdsimpy/solvers.py
+++ b/tmdsimpy/solvers.py
@@ -205,7 +205,8 @@ class NonlinearSolver:
 
         """
         
-        subset_by_index[1] = min(subset_by_index[1], K.shape[0]-1)
+        subset_by_index = [subset_by_index[0],
+                           min(subset_by_index[1], K.shape[0]-1)]
         
         eigvals, eigvecs = scipy.linalg.eigh(K, M, 
                                              subset_by_index=subset_by_index)
-- 
2.43.0


From 8619013fb6b168aba2c3dab29d1b52fd1392d848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 06/22] fix: elastic dry friction local history accepts a
 scalar initial slider position

---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py | 4 ++--
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index 536296b..97a81c6 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -441,7 +441,7 @@ class ElasticDryFriction2D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones_like(unlt[0])
         
         pars = np.array([self.kt, self.kn, self.mu])
         
@@ -454,7 +454,7 @@ class ElasticDryFriction2D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones_like(unlt[0])
 
         pars = np.array([self.kt, self.kn, self.mu])
 
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index a521b61..9b6d283 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -452,7 +452,7 @@ class ElasticDryFriction3D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones_like(unlt[0])
         
         pars = np.array([self.kt, self.kn, self.mu])
         
@@ -465,7 +465,7 @@ class ElasticDryFriction3D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones_like(unlt[0])
 
         pars = np.array([self.kt, self.kn, self.mu])
 
-- 
2.43.0


From 61f50524e05ed58d15518293ffc892148e411c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 07/22] fix: static elastic dry friction force includes the
 saved tangential force

update_history saves the previous tangential force, but it was ignored in
the next evaluation, so reloading from a saved state lost that force.
---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py | 2 +-
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index 97a81c6..505a83f 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -506,7 +506,7 @@ def _local_eldy_force(unl, up, fp, pars, meso_gap):
     fnl = fnl.at[1::2].set(jnp.maximum((unl[1::2]-meso_gap)*kn, 0.0))
     
     # Tangent Force - must use where to get tradient consistently correct
-    fpred = kt*(unl[0::2]-up)
+    fpred = kt*(unl[0::2]-up) + fp
     
     fcurr = jnp.where(fpred < mu*fnl[1::2], fpred, mu*fnl[1::2])
         
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index 9b6d283..ff4f672 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -517,8 +517,8 @@ def _local_eldy_force(unl, up, fp, pars, meso_gap):
     fnl = fnl.at[2::3].set(jnp.maximum((unl[2::3]-meso_gap)*kn, 0.0))
     
     # Tangent Force - must use where to get tradient consistently correct
-    fpredx = kt*(unl[0::3]-up[0::2])
-    fpredy = kt*(unl[1::3]-up[1::2])
+    fpredx = kt*(unl[0::3]-up[0::2]) + fp[0::2]
+    fpredy = kt*(unl[1::3]-up[1::2]) + fp[1::2]
     
     fcurrx = jnp.where(fpredx < mu*fnl[2::3], fpredx, mu*fnl[2::3])
     fcurry = jnp.where(fpredy < mu*fnl[2::3], fpredy, mu*fnl[2::3])
-- 
2.43.0


From b5e893c51ca112230ca0c7b171de913b16e81b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 08/22] fix: continuation stops at a failed step when output is
 suppressed too

With verbose < 0 the unconverged point was stored and the continuation went on.
---
 tmdsimpy/continuation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index 6ad73dd..a732454 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -837,8 +837,9 @@ class Continuation:
                 
             #} End fracLam loop
             
-            if(not sol['success'] and not silent):
-                print('Stopping since final solution failed to converge.')
+            if not sol['success']:
+                if not silent:
+                    print('Stopping since final solution failed to converge.')
                 break
             
             # Store Iteration and Advance
-- 
2.43.0


From edc60bd62d2dfeab9acd8aa9b2cc3abd6c0b0236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 09/22] fix: harmonic_wise_conditioning with a list of minimums
 and many extra unknowns

The trimming of the extra column was wrong if m >= 2*Ndof.
---
 tmdsimpy/utils/harmonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/harmonic.py b/tmdsimpy/utils/harmonic.py
index 8178b3e..f0eb451 100644
--- a/tmdsimpy/utils/harmonic.py
+++ b/tmdsimpy/utils/harmonic.py
@@ -374,7 +374,7 @@ def harmonic_wise_conditioning(X, Ndof, h, delta=1e-4):
         
         if extras:
             # Trim off extra at end
-            CtoP = CtoP[:(m-2*Ndof)]
+            CtoP = np.hstack((CtoP[:-2*Ndof], CtoP[-1]*np.ones(m)))
         
     # Loop over Harmonics and Potentially increase each harmonic
     haszero = 0
-- 
2.43.0


From 949a5fda421536a967c658356cb0b3e6fe83b4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 10/22] fix: suppressed continuation output stays suppressed in
 later calls

The negative verbose setting was overwritten with 0 by the first call.
---
 tmdsimpy/continuation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index a732454..93e7cfb 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -713,8 +713,8 @@ class Continuation:
         # Check about removing all output
         silent = self.config['verbose'] < 0
         
-        if silent:
-            self.config['verbose'] = 0
+        # Frequency of printing updates, does not change the user setting
+        verbose = max(self.config['verbose'], 0)
         
         # Initialize Memory
         XlamP_full = np.zeros((self.config['MaxSteps'], XlamP0.shape[0]))        
@@ -816,7 +816,7 @@ class Continuation:
                 while (not sol['success']) and ds > self.config['dsmin']:
                     ds = max(ds / 2, self.config['dsmin'])
                     
-                    if self.config['verbose']:
+                    if verbose:
                         print(sol['message'])
                         print('Failed to converge with ds=', 2*ds, 
                               '. Retrying with ds=', ds)
@@ -830,7 +830,7 @@ class Continuation:
             
                 # Break out of loop over FracLam values if have converged
                 if sol['success']:
-                    if fracLam_ind > 0 and self.config['verbose']:
+                    if fracLam_ind > 0 and verbose:
                         print('Succeeded with FracLam index {} with value FracLam={}.'\
                               .format(fracLam_ind, self.config['FracLam']))
                     break
@@ -845,7 +845,7 @@ class Continuation:
             # Store Iteration and Advance
             XlamP_full[step] = self.CtoP * XlamC
             
-            if self.config['verbose'] and step % self.config['verbose'] == 0:
+            if verbose and step % verbose == 0:
                 print('Step=', step, ' converged: lam=', XlamP_full[step, -1], \
                       ' ds=', ds, ' and nfev=', sol['nfev'])
             
-- 
2.43.0


From c9e47984bbea61aefc7a3d5258a1bddce2ea6bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 11/22] fix: Continuation does not modify the FracLamList of
 the user config

---
 tmdsimpy/continuation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index 93e7cfb..2074d6d 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -209,7 +209,8 @@ class Continuation:
         if len(default_config['FracLamList']) == 0 \
             or not (default_config['FracLamList'][0] == default_config['FracLam']):
             
-            default_config['FracLamList'].insert(0, default_config['FracLam'])
+            default_config['FracLamList'] = [default_config['FracLam']] \
+                                        + list(default_config['FracLamList'])
             
         self.config = default_config
         
-- 
2.43.0


From 2bea3c9ac6c0f3d457b7190b14cbfa65389aefbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 12/22] fix: JAX AFT with only the zeroth harmonic

The frequency at the end of Uwlocal was counted as a local DOF for Nhc=1.
---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py        | 2 +-
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py        | 2 +-
 tmdsimpy/jax/nlforces/jenkins_element.py            | 2 +-
 tmdsimpy/jax/nlforces/roughcontact/rough_contact.py | 2 +-
 tmdsimpy/jax/nlforces/vector_jenkins.py             | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index 505a83f..b317612 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -644,7 +644,7 @@ def _local_aft_eldry(Uwlocal, pars, u0, htuple, Nt, u0h0, meso_gap):
     
     # Size Calculation
     Nhc = hutils.Nhc(np.array(htuple))
-    Ndnl = int(Uwlocal.shape[0] / Nhc)
+    Ndnl = int((Uwlocal.shape[0] - 1) / Nhc)
         
     # Uwlocal is arranged as all of harmonic 0, then all of 1c, etc. 
     # For each harmonic it has the DOFs in order. Finally there is frequency.
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index ff4f672..b43b8ec 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -664,7 +664,7 @@ def _local_aft_eldry(Uwlocal, pars, u0, htuple, Nt, u0h0, meso_gap):
     
     # Size Calculation
     Nhc = hutils.Nhc(np.array(htuple))
-    Ndnl = int(Uwlocal.shape[0] / Nhc)
+    Ndnl = int((Uwlocal.shape[0] - 1) / Nhc)
         
     # Uwlocal is arranged as all of harmonic 0, then all of 1c, etc. 
     # For each harmonic it has the DOFs in order. Finally there is frequency.
diff --git a/tmdsimpy/jax/nlforces/jenkins_element.py b/tmdsimpy/jax/nlforces/jenkins_element.py
index a88960f..cddb1c1 100644
--- a/tmdsimpy/jax/nlforces/jenkins_element.py
+++ b/tmdsimpy/jax/nlforces/jenkins_element.py
@@ -285,7 +285,7 @@ def _local_aft_jenkins(Uwlocal, pars, u0, htuple, Nt, u0h0):
     
     # Size Calculation
     Nhc = hutils.Nhc(np.array(htuple))
-    Ndnl = int(Uwlocal.shape[0] / Nhc)
+    Ndnl = int((Uwlocal.shape[0] - 1) / Nhc)
     
     # Recover pars for convenience
     kt = pars[0]
diff --git a/tmdsimpy/jax/nlforces/roughcontact/rough_contact.py b/tmdsimpy/jax/nlforces/roughcontact/rough_contact.py
index 0081a4c..d114c02 100644
--- a/tmdsimpy/jax/nlforces/roughcontact/rough_contact.py
+++ b/tmdsimpy/jax/nlforces/roughcontact/rough_contact.py
@@ -998,7 +998,7 @@ def _local_aft(Uwlocal, unlth0, mu, meso_gap, gaps, gap_weights,
     
     # Size Calculation
     Nhc = hutils.Nhc(np.array(htuple))
-    Ndnl = int(Uwlocal.shape[0] / Nhc)
+    Ndnl = int((Uwlocal.shape[0] - 1) / Nhc)
     
     # Uwlocal is arranged as all of harmonic 0, then all of 1c, etc. 
     # For each harmonic it has the DOFs in order. Finally there is frequency.
diff --git a/tmdsimpy/jax/nlforces/vector_jenkins.py b/tmdsimpy/jax/nlforces/vector_jenkins.py
index e16870e..65e6191 100644
--- a/tmdsimpy/jax/nlforces/vector_jenkins.py
+++ b/tmdsimpy/jax/nlforces/vector_jenkins.py
@@ -274,7 +274,7 @@ def _local_aft_jenkins(Uwlocal, pars, u0, htuple, Nt, u0h0):
     
     # Size Calculation
     Nhc = hutils.Nhc(np.array(htuple))
-    Ndnl = int(Uwlocal.shape[0] / Nhc)
+    Ndnl = int((Uwlocal.shape[0] - 1) / Nhc)
     
     # Recover pars for convenience
     kt = pars[0]
-- 
2.43.0


From ebf4998fa81c6af79d8d7e09af243cf7235b75ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 13/22] fix: hysteresis cycles are repeated until converged for
 max_repeats > 2

The previous final force was a view of the force history, so the second
check compared the array to itself.
---
 tmdsimpy/nlforces/nonlinear_force.py | 2 +-
 tmdsimpy/nlforces/vector_iwan4.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/nlforces/nonlinear_force.py b/tmdsimpy/nlforces/nonlinear_force.py
index 6ad59e8..2dfd05b 100644
--- a/tmdsimpy/nlforces/nonlinear_force.py
+++ b/tmdsimpy/nlforces/nonlinear_force.py
@@ -536,7 +536,7 @@ class HystereticForce(NonlinearForce):
             acheck = np.abs(ft[ti, :] - fp)
             rcheck = np.abs(acheck / (ft[ti, :]+np.finfo(float).eps) )
             
-            fp = ft[ti, :]
+            fp = np.copy(ft[ti, :])
         
         return ft, dfduh, dfdudh
         
diff --git a/tmdsimpy/nlforces/vector_iwan4.py b/tmdsimpy/nlforces/vector_iwan4.py
index ab42b49..346fbb1 100644
--- a/tmdsimpy/nlforces/vector_iwan4.py
+++ b/tmdsimpy/nlforces/vector_iwan4.py
@@ -191,7 +191,7 @@ class VectorIwan4(Iwan4Force):
             acheck = np.abs(ft[ti, :] - fp)
             rcheck = np.abs(acheck / (ft[ti, :]+np.finfo(float).eps) )
             
-            fp = ft[ti, :]
+            fp = np.copy(ft[ti, :])
         
         return ft, dfduh, dfdudh, fsliders, dfslidersduh
     
-- 
2.43.0


From 4ef0af63c7b6625ef4bc5728efaa6c5c50803465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 14/22] fix: linear_frf_base includes the mass coupling and
 several base DOFs

The base force omitted w**2*M[free,base] and failed (shapes) for more than
one base DOF.
---
 tmdsimpy/vibration_system.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 32dfcce..8796377 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -994,14 +994,15 @@ class VibrationSystem:
         # modal_f = V.T @ f_base_cos.T
         # modal_fsin = V.T @ f_base_sin.T
         
-        # Just using the stiffness/damping matrix column to generate base forces
-        f_base_cos = -self.K[np.logical_not(base_flag),:][:, base_flag]*Ub[0]\
-                      - self.C[np.logical_not(base_flag),:][:, base_flag]*Ub[1]*w
-                     
-         
-        f_base_sin = -self.K[np.logical_not(base_flag),:][:, base_flag]*Ub[1]\
-                      + self.C[np.logical_not(base_flag),:][:, base_flag]*Ub[0]*w
-        
+        # Using the mass/stiffness/damping columns (summed since all base DOFs
+        # move together) to generate base forces
+        free_flag = np.logical_not(base_flag)
+        Mbase = self.M[free_flag,:][:, base_flag].sum(axis=1, keepdims=True)
+        Kbase = self.K[free_flag,:][:, base_flag].sum(axis=1, keepdims=True)
+        Cbase = self.C[free_flag,:][:, base_flag].sum(axis=1, keepdims=True)
+        
+        f_base_cos = -(Kbase - w**2*Mbase)*Ub[0] - Cbase*Ub[1]*w
+        f_base_sin = -(Kbase - w**2*Mbase)*Ub[1] + Cbase*Ub[0]*w
 
         # Now essentially copied from linear_frf
         # Modal Forcing:
-- 
2.43.0


From 8108da12a3cd889a7da2285b3694064dd3dd6960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:28 +0000
Subject: [PATCH 15/22] fix: hysteretic AFT with more than one local degree of
 freedom

---
 tmdsimpy/nlforces/nonlinear_force.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/nlforces/nonlinear_force.py b/tmdsimpy/nlforces/nonlinear_force.py
index 2dfd05b..71d4e81 100644
--- a/tmdsimpy/nlforces/nonlinear_force.py
+++ b/tmdsimpy/nlforces/nonlinear_force.py
@@ -518,7 +518,8 @@ class HystereticForce(NonlinearForce):
         fp = self.fp
         
         while( (its == 0) 
-              or (acheck > atol and rcheck > rtol and its < max_repeats) ):
+              or (np.any(np.logical_and(acheck > atol, rcheck > rtol)) 
+                  and its < max_repeats) ):
             
             # Time Loop                
             for ti in range(Nt):
-- 
2.43.0


From fec525857ecd578115e3319b852b52a41bf9e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:55 +0000
Subject: [PATCH 16/22] fix: JAX VectorJenkins keeps all reversal points of
 motions with plateaus

---
 tmdsimpy/jax/nlforces/vector_jenkins.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/vector_jenkins.py b/tmdsimpy/jax/nlforces/vector_jenkins.py
index 65e6191..00aed35 100644
--- a/tmdsimpy/jax/nlforces/vector_jenkins.py
+++ b/tmdsimpy/jax/nlforces/vector_jenkins.py
@@ -315,9 +315,11 @@ def _local_aft_jenkins(Uwlocal, pars, u0, htuple, Nt, u0h0):
     vector_set = jnp.not_equal(jnp.sign(dup), jnp.sign(dun))
     vector_set = vector_set.at[0].set(True) # This makes it much easier to write the loop below and is assumed.
     
-    # Maximum number of critical points is 2*(Hmax)
+    # Displacement increments vanish or change sign at most 2*(Hmax) times. An
+    # increment of exactly zero results in two critical points (both of its 
+    # ends), so the maximum number of critical points is 4*(Hmax)
     # Add 1 for ease of implementation by including the first time instant
-    Ncrit = htuple[-1]*2+1
+    Ncrit = min(int(htuple[-1])*4+1, Nt)
     
     _,inds = jax.lax.top_k(vector_set.T, Ncrit)
     
-- 
2.43.0


From 6a6fcba429c7a2ed6cce0ed2cb692e7b6ec873a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:55 +0000
Subject: [PATCH 17/22] fix: local_harmonic_forces for elements started from
 the zeroth harmonic (u0=None)

---
 tmdsimpy/postprocess/harmonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/postprocess/harmonic.py b/tmdsimpy/postprocess/harmonic.py
index 4e2ccbc..58c3a05 100644
--- a/tmdsimpy/postprocess/harmonic.py
+++ b/tmdsimpy/postprocess/harmonic.py
@@ -84,7 +84,7 @@ def local_harmonic_forces(vibration_system, U, w, h, Nt=128, aft_tol=1e-7):
         if nlforce.nl_force_type() == 1:
             # Hysteretic Nonlinearities
             
-            if hasattr(nlforce, 'u0'):
+            if getattr(nlforce, 'u0', None) is not None:
                 # Generally the rough contact nonlinearity should come here,
                 # and other nonlinear friction type elements.    
                 unlth0 = nlforce.u0
-- 
2.43.0


From 772d10cdc34b16971d89b9c47e3a5ec48df12407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:34 +0000
Subject: [PATCH 18/22] fix: elastic dry friction derivatives at zero slip
 limit and zero predicted force

---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py | 10 +++++++---
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py | 15 +++++++++------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index b317612..c717d20 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -591,10 +591,14 @@ def _local_eldry_loop_body(ind, ft, unlt, kt, mu):
 
     """
     
-    fcurr = jnp.minimum(kt*(unlt[ind, 0::2]-unlt[ind-1, 0::2]) + ft[ind-1, 0::2],
-                            mu*ft[ind, 1::2])
+    # jnp.where rather than minimum/maximum, so that derivatives at zero slip 
+    # limit (separation or mu=0) and zero predicted force are those of the limit
+    fpred = kt*(unlt[ind, 0::2]-unlt[ind-1, 0::2]) + ft[ind-1, 0::2]
+    flim = mu*ft[ind, 1::2]
     
-    ft = ft.at[ind, 0::2].set(jnp.maximum(fcurr, -mu*ft[ind, 1::2]))
+    fcurr = jnp.where(fpred >= flim, flim, fpred)
+    
+    ft = ft.at[ind, 0::2].set(jnp.where(fcurr <= -flim, -flim, fcurr))
     
     return ft
  
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index b43b8ec..41e4d6d 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -607,14 +607,17 @@ def _local_eldry_loop_body(ind, ft, unlt, kt, mu):
     """
     
    
-    fcurrx = jnp.minimum(kt*(unlt[ind, 0::3]-unlt[ind-1, 0::3]) + ft[ind-1, 0::3],
-                            mu*ft[ind, 2::3])
+    # jnp.where rather than minimum/maximum, so that derivatives at zero slip 
+    # limit (separation or mu=0) and zero predicted force are those of the limit
+    fpredx = kt*(unlt[ind, 0::3]-unlt[ind-1, 0::3]) + ft[ind-1, 0::3]
+    fpredy = kt*(unlt[ind, 1::3]-unlt[ind-1, 1::3]) + ft[ind-1, 1::3]
+    flim = mu*ft[ind, 2::3]
     
-    fcurry = jnp.minimum(kt*(unlt[ind, 1::3]-unlt[ind-1, 1::3]) + ft[ind-1, 1::3],
-                            mu*ft[ind, 2::3])
+    fcurrx = jnp.where(fpredx >= flim, flim, fpredx)
+    fcurry = jnp.where(fpredy >= flim, flim, fpredy)
     
-    ft = ft.at[ind, 0::3].set(jnp.maximum(fcurrx, -mu*ft[ind, 2::3]))
-    ft = ft.at[ind, 1::3].set(jnp.maximum(fcurry, -mu*ft[ind, 2::3]))
+    ft = ft.at[ind, 0::3].set(jnp.where(fcurrx <= -flim, -flim, fcurrx))
+    ft = ft.at[ind, 1::3].set(jnp.where(fcurry <= -flim, -flim, fcurry))
     
     return ft
  
-- 
2.43.0


From aab58bec63fcbd1cf9ce73eb356f9582e1b428ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:12 +0000
Subject: [PATCH 19/22] fix: rough contact derivatives at zero slip limit and
 zero predicted force

---
 .../nlforces/roughcontact/_asperity_functions.py   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/roughcontact/_asperity_functions.py b/tmdsimpy/jax/nlforces/roughcontact/_asperity_functions.py
index 702c6f3..82b7a97 100644
--- a/tmdsimpy/jax/nlforces/roughcontact/_asperity_functions.py
+++ b/tmdsimpy/jax/nlforces/roughcontact/_asperity_functions.py
@@ -290,11 +290,13 @@ def _tangential_asperity(uxy, uxy0, fxy0, fn, a, Gstar, mu):
     
     fs = jnp.outer(mu*fn,np.ones(2))
     
+    # jnp.where rather than minimum/maximum, so that derivatives at zero slip 
+    # limit (mu=0) and zero predicted force are those of the limit
     # Positive slip
-    fxy = jnp.minimum(fxy, fs)
+    fxy = jnp.where(fxy >= fs, fs, fxy)
     
     # Negative slip
-    fxy = jnp.maximum(fxy, -fs)
+    fxy = jnp.where(fxy <= -fs, -fs, fxy)
     
     return fxy
     
@@ -413,11 +415,15 @@ def _tangential_asperity_mif(uxy, uxy0, txy0, fn, a, Gstar, mu,
     txy = jnp.atleast_3d(kt_local)*(uxy.reshape(1,1,-1)-uxy0.reshape(1,1,-1))\
             + txy0_interp
     
+    # jnp.where rather than minimum/maximum, so that derivatives at zero slip 
+    # limit (mu=0) and zero predicted traction are those of the limit
+    tlim = jnp.atleast_3d(mu*tn)
+    
     # Positive slip limit
-    txy = jnp.minimum(txy, jnp.atleast_3d(mu*tn))
+    txy = jnp.where(txy >= tlim, tlim, txy)
     
     # Negative slip limit
-    txy = jnp.maximum(txy, jnp.atleast_3d(-mu*tn))
+    txy = jnp.where(txy <= -tlim, -tlim, txy)
     
     # Integrate over radii on each asperity, 
     # Equation 38 of Porter and Brake (2023)
-- 
2.43.0


From 8f179d0d3955f611234a10c3cd6c10eb2beb9954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:16 +0000
Subject: [PATCH 20/22] fix: shooting time samples never exceed the period

---
 tmdsimpy/vibration_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 8796377..9917896 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -1121,7 +1121,7 @@ class VibrationSystem:
         
         ivp_res = solve_ivp(ydotfun, (0.0, Period), UV_dUVdUV0, 
                         max_step=Period/Nt,
-                        t_eval=np.array(range(Nt+1))*Period/Nt) 
+                        t_eval=np.linspace(0.0, Period, Nt+1)) 
         
         Yfinal = ivp_res['y'][:, -1]
         Yfinal_dot = ydotfun(Period, Yfinal)
-- 
2.43.0


From 6f831a50c1567328b9252b028a157513c0856938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:38 +0000
Subject: [PATCH 21/22] fix: local_harmonic_forces converges hysteretic forces
 as the harmonic analysis does

---
 tmdsimpy/postprocess/harmonic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tmdsimpy/postprocess/harmonic.py b/tmdsimpy/postprocess/harmonic.py
index 58c3a05..bc625d8 100644
--- a/tmdsimpy/postprocess/harmonic.py
+++ b/tmdsimpy/postprocess/harmonic.py
@@ -27,7 +27,8 @@ def local_harmonic_forces(vibration_system, U, w, h, Nt=128, aft_tol=1e-7):
         Number of Time Steps for AFT. 
         The default is 128.
     aft_tol : double, optional
-        Tolerance for AFT that is passed as an argument.
+        Tolerance for AFT. This argument is ignored for hysteretic forces as 
+        it is in the AFT evaluations of those forces.
         The default is 1e-7.
 
     Returns
@@ -93,8 +94,9 @@ def local_harmonic_forces(vibration_system, U, w, h, Nt=128, aft_tol=1e-7):
                 # Basic hysteretic force initialization
                 unlth0 = Uh[0, :]
             
-            ft = nlforce.local_force_history(ut, unltdot, h, cst, unlth0, 
-                                                       atol=aft_tol)[0]
+            # Same (default) convergence tolerances as used in nlforce.aft, 
+            # which ignores aft_tol for hysteretic forces. 
+            ft = nlforce.local_force_history(ut, unltdot, h, cst, unlth0)[0]
         
         Fh = hutils.get_fourier_coeff(h, ft)
         
-- 
2.43.0


From b0903e100c12c1201b98a35cc164e623700d0d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:16 +0000
Subject: [PATCH 22/22] fix: scale rows of the Jacobian with vector RPtoC in
 the conditioned residual

---
 tmdsimpy/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/solvers.py b/tmdsimpy/solvers.py
index 6a49f07..a6d5f89 100644
--- a/tmdsimpy/solvers.py
+++ b/tmdsimpy/solvers.py
@@ -287,7 +287,8 @@ def _conditioned_fun(Xc, CtoP, RPtoC, calc_grad, fun):
         R, dRdXp = fun(Xp)[:2]
         
         Rc = RPtoC * R
-        dRcdXc = RPtoC*dRdXp*CtoP
+        # Scale rows by RPtoC (scalar or vector) and columns by CtoP
+        dRcdXc = (RPtoC*dRdXp.T).T*CtoP
         
         return (Rc, dRcdXc)
         
-- 
2.43.0

