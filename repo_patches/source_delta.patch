From 40f89a702098a99ab2046fe11afb1c23ae96a040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 01/26] fix: bin_downsample raises on sizes not divisible by
 the factor

---
 falco/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/util.py b/falco/util.py
index 00fd321..0224312 100644
--- a/falco/util.py
+++ b/falco/util.py
@@ -566,7 +566,7 @@ def bin_downsample(Ain, dsfac):
     # Array Sizes
     ny0, nx0 = Ain.shape
     if (nx0 % dsfac != 0) or (ny0 % dsfac != 0):
-        ValueError('The size of Ain must be divisible by dsfac.')
+        raise ValueError('The size of Ain must be divisible by dsfac.')
 
     nx1 = int(nx0/dsfac)
     ny1 = int(ny0/dsfac)
-- 
2.43.0


From 3fb786ee6056484493859dba3b561d2039ea1ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 02/26] fix: pad_crop accepts numpy integers in a sequence of
 output sizes

---
 falco/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/util.py b/falco/util.py
index 0224312..f03998a 100644
--- a/falco/util.py
+++ b/falco/util.py
@@ -224,7 +224,7 @@ def pad_crop(arrayIn, outsize, extrapval=0):
     try:
         if len(sh1) != 2:
             raise TypeError('Output dimensions must have 2 elements')
-        if (not isinstance(sh1[0], int)) or (not isinstance(sh1[1], int)):
+        if (not isinstance(sh1[0], int_types)) or (not isinstance(sh1[1], int_types)):
             raise TypeError('Output dimensions must be integers')
         if (sh1[0] <= 0) or (sh1[1] <= 0):
             raise TypeError('Output dimensions must be positive ' + 'integers')
-- 
2.43.0


From ca4614c43f139f318079a3f78b6160b759a73454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 03/26] fix: ifft2d inverts fft2d for odd-sized arrays

---
 falco/prop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/prop.py b/falco/prop.py
index 1b91514..264bc5e 100644
--- a/falco/prop.py
+++ b/falco/prop.py
@@ -254,7 +254,7 @@ def fft2d(arrayIn):
 
 def ifft2d(arrayIn):
     check.twoD_array(arrayIn, 'arrayIn', TypeError)
-    return np.fft.ifftshift(np.fft.ifft2(np.fft.fftshift(arrayIn), norm='ortho'))
+    return np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(arrayIn), norm='ortho'))
 
 
 def mft_p2v2p(pupilPre, charge, beamRadius, inVal, outVal, reverseGradient=False):
-- 
2.43.0


From d53b757cda8bd0eaf988aa4684b49448def7a8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 04/26] fix: mft_f2p samples the vertical focal-plane axis with
 deta

---
 falco/prop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/prop.py b/falco/prop.py
index 264bc5e..eede15e 100644
--- a/falco/prop.py
+++ b/falco/prop.py
@@ -158,7 +158,7 @@ def mft_f2p(E_foc, fl, wavelength, dxi, deta, dx, N, centering='pixel'):
 
     # Focal-plane coordinates
     xi = util.create_axis(Nxi, dxi, centering=centering)[:, None]  # Broadcast to column vector
-    eta = util.create_axis(Neta, dxi, centering=centering)[None, :]  # Broadcast to row vector
+    eta = util.create_axis(Neta, deta, centering=centering)[None, :]  # Broadcast to row vector
 
     # Pupil-plane coordinates
     x = util.create_axis(N, dx, centering=centering)[None, :]  # Broadcast to row vector
-- 
2.43.0


From b5b214fafc6c1ec39ec12aed70ccd21fda46a20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 05/26] fix: each wavelength appears once in the
 unique-wavelength list

---
 falco/setup.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index a03b259..bf88baf 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -547,19 +547,16 @@ def falco_set_spectral_properties(mp):
             counter = counter+1;
 
     # Get rid of redundant wavelengths in the complete list, and sum weights for repeated wavelengths
-    unused_1, inds_unique = np.unique(np.round(1e12*lambdas), return_index=True)  # Check equality at picometer level
+    order = np.argsort(lambdas, kind='stable')
+    isNew = np.append(True, np.diff(lambdas[order]) > 0.5e-12)  # Check equality at picometer level
+    labels = np.zeros(len(lambdas), dtype=int)
+    labels[order] = np.cumsum(isNew) - 1
+    unused_1, inds_unique = np.unique(labels, return_index=True)
     mp.full.indsLambdaUnique = inds_unique
-    duplicate_inds = np.setdiff1d(np.arange(len(lambdas), dtype=int), inds_unique)
-    # duplicate_values = lambda_weights_all[duplicate_inds] # duplicate weight values
 
     # Shorten the vectors to contain only unique values. Combine weights for repeated wavelengths.
     mp.full.lambdas = lambdas[inds_unique]
-    mp.full.lambda_weights_all = lambda_weights_all[inds_unique]
-    for idup in range(len(duplicate_inds)):
-        wvl = lambdas[duplicate_inds[idup]]
-        weight = lambda_weights_all[duplicate_inds[idup]]
-        ind = np.where(np.abs(mp.full.lambdas-wvl) <= 1e-11)
-        mp.full.lambda_weights_all[ind] = mp.full.lambda_weights_all[ind] + weight
+    mp.full.lambda_weights_all = np.bincount(labels, weights=lambda_weights_all)
     mp.full.NlamUnique = len(inds_unique)
     pass
 
-- 
2.43.0


From bbdbdd72bfa51e160e4690ec3014de5be4399b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 06/26] fix: enforce_constraints keeps total voltages within
 limits and pinned actuators pinned

---
 falco/dm.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 3c42546..f77cc6c 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -913,16 +913,21 @@ def enforce_constraints(dm):
     # Apply dead actuator map
     dm.V = dm.V * ~dm.dead_map
 
-    # Min voltage limit
+    # Actuators that are already pinned keep their pinned command
+    isFree = np.ones(dm.V.size, dtype=bool)
+    isFree[dm.pinned.astype(int)] = False
+    biasVec = (np.zeros_like(dm.V) + dm.biasMap).flatten()
+
+    # Min voltage limit (on the total voltage)
     Vtotal = dm.V + dm.biasMap
-    new_inds = np.nonzero(Vtotal.flatten() < dm.Vmin)[0]  # linear indices of new actuators breaking their bounds
-    new_vals = dm.Vmin*np.ones(new_inds.size)
+    new_inds = np.nonzero((Vtotal.flatten() < dm.Vmin) & isFree)[0]  # linear indices of new actuators breaking their bounds
+    new_vals = dm.Vmin - biasVec[new_inds]
     dm.pinned = np.hstack([dm.pinned, new_inds])  # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
 
     # Max voltage limit
-    new_inds = np.nonzero(Vtotal.flatten() > dm.Vmax)[0]  # linear indices of new actuators breaking their bounds
-    new_vals = dm.Vmax*np.ones(new_inds.size)
+    new_inds = np.nonzero((Vtotal.flatten() > dm.Vmax) & isFree)[0]  # linear indices of new actuators breaking their bounds
+    new_vals = dm.Vmax - biasVec[new_inds]
     dm.pinned = np.hstack([dm.pinned, new_inds])     # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
 
-- 
2.43.0


From 79d6d0274c25d10aecf325cb4bcd892131c4a8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:09 +0000
Subject: [PATCH 07/26] fix: build the DM8 part of the command vector from
 DM8's own command

---
 falco/ctrl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 5c83f1a..f5e055d 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -1107,7 +1107,7 @@ def init(mp, cvar):
     # Make the vector of total DM commands from before
     u1 = mp.dm1.V.reshape(mp.dm1.NactTotal)[mp.dm1.act_ele] if any(mp.dm_ind == 1) else np.array([])
     u2 = mp.dm2.V.reshape(mp.dm2.NactTotal)[mp.dm2.act_ele] if any(mp.dm_ind == 2) else np.array([])
-    u8 = mp.dm9.V.reshape(mp.dm8.NactTotal)[mp.dm8.act_ele] if any(mp.dm_ind == 8) else np.array([])
+    u8 = mp.dm8.V.reshape(mp.dm8.NactTotal)[mp.dm8.act_ele] if any(mp.dm_ind == 8) else np.array([])
     u9 = mp.dm9.V.reshape(mp.dm9.NactTotal)[mp.dm9.act_ele] if any(mp.dm_ind == 9) else np.array([])
     cvar.uVec = np.concatenate((u1, u2, u8, u9))
     cvar.NeleAll = cvar.uVec.size
-- 
2.43.0


From 79b6e94f69f5981c34b472ee8581005577c994e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:09 +0000
Subject: [PATCH 08/26] fix: report the image of the best command from the
 parallel grid search

---
 falco/ctrl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index f5e055d..fbb3bea 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -352,6 +352,7 @@ def _grid_search_efc(mp, cvar):
         # Convert from a list to arrays:
         for ni in range(Nvals):
             InormVec[ni] = results_ctrl[ni][0]
+            ImCube[ni, :, :] = results_ctrl[ni][1].Itotal
             if any(mp.dm_ind == 1):
                 dDM1V_store[:, :, ni] = results_ctrl[ni][1].dDM1V
             if any(mp.dm_ind == 2):
-- 
2.43.0


From 3f0f14b4785cd25465ac5f826b7678696797b54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:20 +0000
Subject: [PATCH 09/26] fix: include all actuators before computing the
 Jacobian that is culled

---
 falco/ctrl.py | 40 ++++++++++++++++++++++++++++++++--------
 falco/wfsc.py |  1 +
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index fbb3bea..50d8b65 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -127,9 +127,12 @@ def wrapper(mp, cvar, jacStruct):
     return None
 
 
-def cull_weak_actuators(mp, cvar, jacStruct):
+def include_all_actuators(mp, cvar):
     """
-    Remove weak actuators from the controlled set.
+    Decide whether to cull and, if so, use all actuators again.
+
+    Must be called before computing the Jacobian that is to be culled, so that
+    the Jacobian covers every actuator of the DMs in use.
 
     Parameters
     ----------
@@ -137,17 +140,12 @@ def cull_weak_actuators(mp, cvar, jacStruct):
         Structure containing optical model parameters
     cvar : ModelParameters
         Structure containing controller variables
-    jacStruct : ModelParameters
-        Structure containing control Jacobians for each specified DM.
 
     Returns
     -------
     None
-        Changes are made by reference to mp and jacStruct.
+        Changes are made by reference to mp and cvar.
     """
-    if type(mp) is not falco.config.ModelParameters:
-        raise TypeError('Input "mp" must be of type ModelParameters')
-
     if cvar.Itr == 0:  # Cull in first iteration
         cvar.flagCullAct = True
     else:  # Cull when actuators used change
@@ -192,6 +190,32 @@ def cull_weak_actuators(mp, cvar, jacStruct):
         else:
             mp.dm9.Nele = 0
 
+    return None
+
+
+def cull_weak_actuators(mp, cvar, jacStruct):
+    """
+    Remove weak actuators from the controlled set.
+
+    Parameters
+    ----------
+    mp : ModelParameters
+        Structure containing optical model parameters
+    cvar : ModelParameters
+        Structure containing controller variables
+    jacStruct : ModelParameters
+        Structure containing control Jacobians for each specified DM.
+
+    Returns
+    -------
+    None
+        Changes are made by reference to mp and jacStruct.
+    """
+    if type(mp) is not falco.config.ModelParameters:
+        raise TypeError('Input "mp" must be of type ModelParameters')
+
+    include_all_actuators(mp, cvar)
+
     # Reduce the number of actuators used based on their relative strength
     # in the Jacobian
     if cvar.flagCullAct and cvar.flagRelin:
diff --git a/falco/wfsc.py b/falco/wfsc.py
index cae6fc2..110c4fe 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -78,6 +78,7 @@ def loop(mp, out):
             # Compute the control Jacobians for each DM
             cvar.flagRelin = np.any(mp.relinItrVec == Itr) or Itr == 0
             if cvar.flagRelin:
+                falco.ctrl.include_all_actuators(mp, cvar)
                 jacStruct = falco.model.jacobian(mp)
 
             falco.ctrl.cull_weak_actuators(mp, cvar, jacStruct)
-- 
2.43.0


From a7def7be439b556696ddbefae9c2baf94077c6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:49 +0000
Subject: [PATCH 10/26] fix: parallel Jacobian puts each actuator's response in
 its own column and skips unused DMs

---
 falco/model/models.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index cc82748..1a7f3d2 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1156,14 +1156,19 @@ def jacobian(mp):
             #     )
             # results_tuple = tuple(result)
 
-            results_order_dm1 = [(imode, idm, iact) for iact in mp.dm1.act_ele for idm in [1, ] for imode in range(mp.jac.Nmode)]
-            results_order_dm2 = [(imode, idm, iact) for iact in mp.dm2.act_ele for idm in [2, ] for imode in range(mp.jac.Nmode)]
-            results_order = results_order_dm1 + results_order_dm2
+            # Each task is (mode, DM, actuator, column of that actuator in the DM's Jacobian)
+            results_order = []
+            if any(mp.dm_ind == 1):
+                results_order += [(imode, 1, iact, index) for index, iact in enumerate(mp.dm1.act_ele)
+                                  for imode in range(mp.jac.Nmode)]
+            if any(mp.dm_ind == 2):
+                results_order += [(imode, 2, iact, index) for index, iact in enumerate(mp.dm2.act_ele)
+                                  for imode in range(mp.jac.Nmode)]
 
             with PoolExecutor(max_workers=mp.Nthreads) as executor:
                 result = executor.map(
                     lambda p: _jac_middle_layer(*p),
-                    [(mp, imode, idm, iact) for imode, idm, iact in results_order]
+                    [(mp, imode, idm, iact) for imode, idm, iact, _ in results_order]
                 )
             results_tuple = tuple(result)
 
@@ -1171,15 +1176,11 @@ def jacobian(mp):
             for ii in range(len(results_order)):
                 imode = results_order[ii][0]
                 idm = results_order[ii][1]
-                iact = results_order[ii][2]
+                index = results_order[ii][3]
                 if idm == 1:
-                    jacStruct.G1[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G1[:, index, imode] = results_tuple[ii]
                 if idm == 2:
-                    jacStruct.G2[:, iact, imode] = results_tuple[ii]
-                if idm == 8:
-                    jacStruct.G8[:, iact, imode] = results_tuple[ii]
-                if idm == 9:
-                    jacStruct.G9[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G2[:, index, imode] = results_tuple[ii]
 
             print('done.')
 
-- 
2.43.0


From 02729ab10dd5f81f828c3d0811df88e81f53f311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:08 +0000
Subject: [PATCH 11/26] fix: full model does not share one wavelength's
 focal-plane mask between threads

---
 falco/model/models.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/falco/model/models.py b/falco/model/models.py
index 1a7f3d2..6e89c28 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -115,6 +115,11 @@ def full(mp, modvar, isNorm=True):
         ilam = modvar.sbpIndex
 
     if mp.coro.upper() == 'HLC':
+        # Other threads may be evaluating the model at other wavelengths, so
+        # don't store this wavelength's mask in the shared structure.
+        mp = copy.copy(mp)
+        mp.F3 = copy.copy(mp.F3)
+        mp.F3.full = copy.copy(mp.F3.full)
         if mp.layout.lower() == 'fourier' or mp.layout.lower() == 'proper':
             if hasattr(mp.full, 'fpmCube'):
                 mp.F3.full.mask = mp.full.fpmCube[:, :, ilam]
-- 
2.43.0


From f0c09fe958a2d6c71442948e85bf10e7f49c7720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:08 +0000
Subject: [PATCH 12/26] fix: images computed in parallel do not share one
 polarization state between threads

---
 falco/imaging.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/falco/imaging.py b/falco/imaging.py
index 316435c..60e86dd 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -1,4 +1,5 @@
 """Functions for generating images in FALCO."""
+import copy
 import numpy as np
 import multiprocessing
 from concurrent.futures import ThreadPoolExecutor as PoolExecutor
@@ -335,6 +336,8 @@ def _get_single_sim_full_image_one_arg(mp):
     modvar.sbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam], 0]
     modvar.wpsbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam],
                                               1]
+    mp = copy.copy(mp)  # other threads use other polarizations
+    mp.full = copy.copy(mp.full)
     mp.full.polaxis = pol  # mp.full.pol_conds[ipol]
     modvar.whichSource = 'star'
     modvar.starIndex = 0
@@ -352,6 +355,8 @@ def _get_single_sim_full_image(mp, ilist, vals_list):
     modvar.sbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam], 0]
     modvar.wpsbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam],
                                               1]
+    mp = copy.copy(mp)  # other threads use other polarizations
+    mp.full = copy.copy(mp.full)
     mp.full.polaxis = pol  # mp.full.pol_conds[ipol]
     modvar.whichSource = 'star'
     modvar.starIndex = 0
@@ -481,6 +486,8 @@ def _get_subband_image_component(mp, si, ilist, inds_list):
     modvar = falco.config.ModelVariables()
     modvar.sbpIndex = si
     modvar.wpsbpIndex = wi
+    mp = copy.copy(mp)  # other threads use other polarizations
+    mp.full = copy.copy(mp.full)
     mp.full.polaxis = mp.full.pol_conds[ipol]
     modvar.whichSource = 'star'
     modvar.starIndex = iStar
-- 
2.43.0


From fc7f6ee2eae62c77b6b42bbc8600b6bb417a8ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:18 +0000
Subject: [PATCH 13/26] fix: parallel broadband image includes every star and
 the detector noise

---
 falco/imaging.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index 60e86dd..291dcb7 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -268,7 +268,8 @@ def get_summed_image(mp):
     if type(mp) is not falco.config.ModelParameters:
         raise TypeError('Input "mp" must be of type ModelParameters')
 
-    if not (mp.flagParallel and mp.flagSim):
+    # Noise is added to each sub-band image, so those have to be computed.
+    if not (mp.flagParallel and mp.flagSim) or mp.flagImageNoise:
         summedImage = 0
         for si in range(mp.Nsbp):
             summedImage += mp.sbp_weights[si] * get_sbp_image(mp, si)
@@ -276,9 +277,10 @@ def get_summed_image(mp):
     else:  # Compute simulated images in parallel
 
         # Initializations
-        vals_list = [(ilam, pol) for ilam in range(mp.full.NlamUnique)
-                     for pol in mp.full.pol_conds]
-        Nvals = mp.full.NlamUnique*len(mp.full.pol_conds)
+        vals_list = [(ilam, pol, iStar) for ilam in range(mp.full.NlamUnique)
+                     for pol in mp.full.pol_conds
+                     for iStar in range(mp.star.count)]
+        Nvals = len(vals_list)
 
 #         result = map(
 #             lambda p: _get_single_sim_full_image(*p),
@@ -350,6 +352,7 @@ def _get_single_sim_full_image(mp, ilist, vals_list):
     """Use only with get_summed_image."""
     ilam = vals_list[ilist][0]
     pol = vals_list[ilist][1]
+    iStar = vals_list[ilist][2]
 
     modvar = falco.config.ModelVariables()  # Initialize the new structure
     modvar.sbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam], 0]
@@ -359,7 +362,7 @@ def _get_single_sim_full_image(mp, ilist, vals_list):
     mp.full = copy.copy(mp.full)
     mp.full.polaxis = pol  # mp.full.pol_conds[ipol]
     modvar.whichSource = 'star'
-    modvar.starIndex = 0
+    modvar.starIndex = iStar
     Estar = falco.model.full(mp, modvar)
 
     return np.abs(Estar)**2  # Apply spectral weighting outside this function
-- 
2.43.0


From ec728309eb22a73d95fd591845674100343551cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:18 +0000
Subject: [PATCH 14/26] fix: perfect estimate's image sums over stars and has
 the same shape in serial and in parallel

---
 falco/est.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 6e38f8e..ad31df7 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -129,7 +129,7 @@ def perfect(mp, ev):
         # pool.join()
 
         # Re-order for easier indexing
-        EmatArray = np.zeros((mp.Fend.Nxi, mp.Fend.Neta, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
+        EmatArray = np.zeros((mp.Fend.Neta, mp.Fend.Nxi, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
         EvecArray = np.zeros((mp.Fend.corr.Npix, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
         for iv in range(Nvals):
             iMode = inds_list[iv][0]  # Index of the Jacobian mode
@@ -190,7 +190,7 @@ def perfect(mp, ev):
                 EmatSubband += mp.full.lambda_weights[wi] * E2D
 
             if isPiston:
-                ev.imageArray[:, :, 0, modvar.sbpIndex] = np.abs(EmatSubband)**2
+                ev.imageArray[:, :, 0, modvar.sbpIndex] += np.abs(EmatSubband)**2
 
             Eest[:, iMode] = EmatSubband[mp.Fend.corr.maskBool]
 
-- 
2.43.0


From 7cb4e4880b8a81639e93a62fab21b4b2839303a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:11 +0000
Subject: [PATCH 15/26] fix: scoring region uses the vertical offset of the
 dark hole, not the horizontal one

---
 falco/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/setup.py b/falco/setup.py
index bf88baf..a346109 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1119,7 +1119,7 @@ def falco_configure_dark_hole_region(mp):
             mp.Fend.xiOffset = np.atleast_1d(mp.Fend.xiOffset)
             SCORE["xiOffset"] = mp.Fend.xiOffset[iZone]
         if hasattr(mp.Fend, 'etaOffset'):
-            mp.Fend.etaOffset = np.atleast_1d(mp.Fend.xiOffset)
+            mp.Fend.etaOffset = np.atleast_1d(mp.Fend.etaOffset)
             SCORE["etaOffset"] = mp.Fend.etaOffset[iZone]
 
         [maskTemp, _, _] = falco.mask.falco_gen_SW_mask(SCORE)
-- 
2.43.0


From 2699acbeea0bb8069fa179ae034837e204cc076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:43 +0000
Subject: [PATCH 16/26] fix: HLC full model looks up the focal-plane mask of
 its own wavelength

---
 falco/hlc.py          |  4 ++--
 falco/model/models.py | 15 ++++-----------
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/falco/hlc.py b/falco/hlc.py
index 08be1de..e9543e2 100644
--- a/falco/hlc.py
+++ b/falco/hlc.py
@@ -45,8 +45,8 @@ def gen_fpm_from_LUT(mp, si, wi, modelType):
     elif modelType.lower() == 'full':
         # size = (Ndiel,Nmetal,mp.Nsbp*mp.Nwpsbp)
         complexTransCube = mp.complexTransFull
-        # Index of the wavelength in mp.lam_array
-        ilam = (si-1)*mp.Nwpsbp + wi
+        # Index of the wavelength in mp.full.lambdas, which has no repeated values
+        ilam = np.argmin(np.abs(mp.full.lambdas - mp.full.lambdasMat[si, wi]))
     else:
         raise ValueError('modelType must specify full or compact model.')
 
diff --git a/falco/model/models.py b/falco/model/models.py
index 6e89c28..d2b46d7 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -103,18 +103,11 @@ def full(mp, modvar, isNorm=True):
                                                      modvar.zernIndex]
 
     # %% Pre-compute the FPM first for HLC
-    if mp.Nsbp > 1 and mp.Nwpsbp > 1:
-        # Weird indexing is because interior wavelengths at
-        # edges of sub-bands are the same, and the fpmCube
-        # contains only the minimal set of masks.
-        ilam = (modvar.sbpIndex-2)*mp.Nwpsbp + modvar.wpsbpIndex + \
-            (mp.Nsbp-modvar.sbpIndex+1)
-    elif mp.Nsbp == 1 and mp.Nwpsbp > 1:
-        ilam = modvar.wpsbpIndex
-    elif mp.Nwpsbp == 1:
-        ilam = modvar.sbpIndex
-
     if mp.coro.upper() == 'HLC':
+        # The cube contains one mask per value in mp.full.lambdas, in which
+        # wavelengths shared by neighboring sub-bands are not repeated.
+        ilam = np.argmin(np.abs(mp.full.lambdas - wvl))
+
         # Other threads may be evaluating the model at other wavelengths, so
         # don't store this wavelength's mask in the shared structure.
         mp = copy.copy(mp)
-- 
2.43.0


From db0a5403bc4ca6d25128ae424b0de9e7af2856bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:10 +0000
Subject: [PATCH 17/26] fix: accept any list of distinct Zernikes and give
 piston its own weight column

---
 falco/setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index a346109..6a0fc99 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -588,7 +588,7 @@ def falco_set_jacobian_modal_weights(mp):
 
     if not np.any(mp.jac.zerns == 1):
         raise ValueError('Piston must be included as a controlled Zernike.')
-    elif list(mp.jac.zerns) != list(set(mp.jac.zerns)):
+    elif np.unique(mp.jac.zerns).size != mp.jac.Nzern:
         raise ValueError('mp.jac.zerns cannot have repeated values.')
     else:
         # Reset coefficient for piston term to 1
@@ -599,7 +599,7 @@ def falco_set_jacobian_modal_weights(mp):
     for izern in range(mp.jac.Nzern):
         whichZern = mp.jac.zerns[izern]
         if whichZern == 1:  # Include all wavelengths for piston Zernike mode
-            mp.jac.weightMat[:, 0] = np.ones(mp.Nsbp)
+            mp.jac.weightMat[:, izern] = np.ones(mp.Nsbp)
         else:  # Include just middle and end wavelengths for non-piston
             mp.jac.weightMat[0, izern] = 1
             mp.jac.weightMat[mp.si_ref, izern] = 1
-- 
2.43.0


From f2ef0f047980446e3a9ef1bfe8f949567643f9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:57 +0000
Subject: [PATCH 18/26] fix: spatial weights are not applied again to the
 stored Jacobian at every iteration

---
 falco/wfsc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/wfsc.py b/falco/wfsc.py
index 110c4fe..06be66e 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -1,5 +1,5 @@
 """WFSC Loop Function."""
-from copy import copy
+from copy import deepcopy
 import numpy as np
 import os
 import time
@@ -123,7 +123,7 @@ def loop(mp, out):
 
         # Send a copy of jacStruct so that spatial weights don't show up 
         # outside the controller or get applied multiple times.
-        falco.ctrl.wrapper(mp, cvar, copy(jacStruct))
+        falco.ctrl.wrapper(mp, cvar, deepcopy(jacStruct))
 
         # Store key data in out object
         out.log10regHist[Itr] = cvar.log10regUsed
-- 
2.43.0


From 28874d3960f187fb86f611a57ce50f1b169f5121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:57 +0000
Subject: [PATCH 19/26] fix: recording the incoherent intensity does not
 rescale the estimate itself

---
 falco/wfsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/wfsc.py b/falco/wfsc.py
index 06be66e..a0613ea 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -343,7 +343,7 @@ def store_intensities(mp, out, ev, Itr):
 
     # Apply subband weights and then sum over subbands
     Iest = np.abs(ev.Eest)**2
-    Iinco = ev.IincoEst
+    Iinco = ev.IincoEst.copy()
     for iMode in range(mp.jac.Nmode):
         iSubband = mp.jac.sbp_inds[iMode]
         Iest[:, iMode] = mp.sbp_weights[iSubband] * Iest[:, iMode]
-- 
2.43.0


From eb058971dbd289d5842b81376f923d5ecb927d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:57 +0000
Subject: [PATCH 20/26] fix: saving the workspace does not fail on variables
 that no longer exist

---
 falco/wfsc.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/falco/wfsc.py b/falco/wfsc.py
index a0613ea..5d38ed1 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -200,8 +200,6 @@ def loop(mp, out):
     # Save out the data from the workspace
     if mp.flagSaveWS:
         del cvar
-        del G
-        del h
         del jacStruct
 
         # Don't bother saving the large 2-D, floating point maps.
-- 
2.43.0


From 1471fa07f752acd0fbd64a03f9274f77e09c1f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:20 +0000
Subject: [PATCH 21/26] fix: histories of modal intensities have one column per
 control mode

---
 falco/setup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index 6a0fc99..24d8ddd 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1474,10 +1474,10 @@ def init_storage_arrays(mp):
 
     out.normIntMeasCorr = np.zeros((mp.Nitr, mp.Nsbp))  # Measured raw NI in correction region of dark hole.
     out.normIntMeasScore = np.zeros((mp.Nitr, mp.Nsbp))  # Measured raw NI in scoring region of dark hole.
-    out.normIntModCorr = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated modulated NI in correction region of dark hole.
-    out.normIntModScore = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated modulated NI in scoring region of dark hole.
-    out.normIntUnmodCorr = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated unmodulated NI in correction region of dark hole.
-    out.normIntUnmodScore = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated unmodulated NI in correction region of dark hole.
+    out.normIntModCorr = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated modulated NI in correction region of dark hole.
+    out.normIntModScore = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated modulated NI in scoring region of dark hole.
+    out.normIntUnmodCorr = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated unmodulated NI in correction region of dark hole.
+    out.normIntUnmodScore = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated unmodulated NI in correction region of dark hole.
 
     # Storage array for throughput at each iteration
     out.thput = np.zeros(mp.Nitr + 1)
-- 
2.43.0


From 29db21865c99eb1a7932c70c810c621fd3d93eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:48 +0000
Subject: [PATCH 22/26] fix: scheduled probe parameters are checked and indexed
 as arrays

---
 falco/est.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index ad31df7..d4d8933 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -249,28 +249,32 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
     # If scheduled, change some aspects of the probe.
     # None values mean they are not scheduled.
     if mp.est.probeSchedule.xOffsetVec is not None:
-        check.oneD_array(mp.est.probeSchedule.xOffsetVec)
+        check.oneD_array(mp.est.probeSchedule.xOffsetVec,
+                         'mp.est.probeSchedule.xOffsetVec', TypeError)
         if len(mp.est.probeSchedule.xOffsetVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.xOffsetVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.xOffset = mp.est.probeSchedule.xOffsetVec[Itr]
 
     if mp.est.probeSchedule.yOffsetVec is not None:
-        check.oneD_array(mp.est.probeSchedule.yOffsetVec)
+        check.oneD_array(mp.est.probeSchedule.yOffsetVec,
+                         'mp.est.probeSchedule.yOffsetVec', TypeError)
         if len(mp.est.probeSchedule.yOffsetVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.yOffsetVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.yOffset = mp.est.probeSchedule.yOffsetVec[Itr]
 
     if mp.est.probeSchedule.rotationVec is not None:
-        check.oneD_array(mp.est.probeSchedule.rotationVec)
+        check.oneD_array(mp.est.probeSchedule.rotationVec,
+                         'mp.est.probeSchedule.rotationVec', TypeError)
         if len(mp.est.probeSchedule.rotationVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.rotationVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.rotation = mp.est.probeSchedule.rotationVec[Itr]
 
     if mp.est.probeSchedule.InormProbeVec is not None:
-        check.oneD_array(mp.est.probeSchedule.InormProbeVec)
+        check.oneD_array(mp.est.probeSchedule.InormProbeVec,
+                         'mp.est.probeSchedule.InormProbeVec', TypeError)
         if len(mp.est.probeSchedule.InormProbeVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.InormProbeVec must have '
                              'enough values for all WFSC iterations.')
@@ -423,7 +427,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
                                      ev.InormProbeMax])
                 print('Chosen probe intensity: %.2e' % InormProbe)
             else:
-                InormProbe = mp.est.probeSchedule.InormProbeVec(Itr)
+                InormProbe = mp.est.probeSchedule.InormProbeVec[Itr]
                 print('Scheduled probe intensity: %.2e' % InormProbe)
 
             # Perform the probing
-- 
2.43.0


From 77793da001a0dd667183e2b58f3eef65796df174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:48 +0000
Subject: [PATCH 23/26] fix: pairwise probing restores a mirror that is not
 used for control

---
 falco/est.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index d4d8933..7a1522d 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -296,15 +296,8 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
         raise ValueError('mp.est.probe.whichDM must equal 1 or 2.')
 
     # Store the initial DM commands
-    if np.any(mp.dm_ind == 1):
-        DM1Vnom = mp.dm1.V.copy()
-    else:
-        DM1Vnom = np.zeros((mp.dm1.Nact, mp.dm1.Nact))
-
-    if np.any(mp.dm_ind == 2):
-        DM2Vnom = mp.dm2.V.copy()
-    else:
-        DM2Vnom = np.zeros((mp.dm2.Nact, mp.dm2.Nact))
+    DM1Vnom = mp.dm1.V.copy()
+    DM2Vnom = mp.dm2.V.copy()
 
     # Initialize output arrays
     Npairs = mp.est.probe.Npairs  # Number of image PAIRS
@@ -710,10 +703,8 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
         # plt.gca().invert_yaxis()
 
     # Reset nominal values that were changed
-    if np.any(mp.dm_ind == 1):
-        mp.dm1.V = DM1Vnom
-    if np.any(mp.dm_ind == 2):
-        mp.dm2.V = DM2Vnom
+    mp.dm1.V = DM1Vnom
+    mp.dm2.V = DM2Vnom
     mp.dm_ind = mp.dm_ind_init
 
     print('Completed pairwise probing estimation.')
-- 
2.43.0


From 01cb1cb8bea3dfe8f3fb98283382800c7b655d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:48 +0000
Subject: [PATCH 24/26] fix: probe plots show the commands of the probing
 mirror

---
 falco/est.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index 7a1522d..7d660ff 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -514,7 +514,10 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
             ev.iStar = iStar
             dDMVplus = np.zeros_like(DM1Vplus)
             for ii in range(Npairs):
-                dDMVplus[:, :, ii] = DM1Vplus[:, :, ii] - DM1Vnom
+                if whichDM == 1:
+                    dDMVplus[:, :, ii] = DM1Vplus[:, :, ii] - DM1Vnom
+                elif whichDM == 2:
+                    dDMVplus[:, :, ii] = DM2Vplus[:, :, ii] - DM2Vnom
             falco.plot.pairwise_probes(mp, ev, dDMVplus, ampSq2Dcube, iSubband)
 
             # ################# Perform the estimation #######################
-- 
2.43.0


From 29d1bda1288f2d584d3c88f448de2c96be226a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:48 +0000
Subject: [PATCH 25/26] fix: Jacobian-based pairwise estimation multiplies by
 the command of the used actuators

---
 falco/est.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 7d660ff..185b45b 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -532,13 +532,13 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
                     if whichDM == 1:
                         dV = DM1Vplus[:, :, iProbe] - DM1Vnom
                         dEplus[:, iProbe] = \
-                            np.squeeze(jacStruct.G1[:, :, iSubband]) * \
-                            dV[mp.dm1.act_ele]
+                            jacStruct.G1[:, :, modeIndex] @ \
+                            dV.flatten()[mp.dm1.act_ele]
                     elif whichDM == 2:
                         dV = DM2Vplus[:, :, iProbe] - DM2Vnom
                         dEplus[:, iProbe] = \
-                            np.squeeze(jacStruct.G2[:, :, iSubband]) * \
-                            dV[mp.dm2.act_ele]
+                            jacStruct.G2[:, :, modeIndex] @ \
+                            dV.flatten()[mp.dm2.act_ele]
 
             # Get the probe phase from the model
             # and the probe amplitude from the measurements
@@ -598,8 +598,8 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
                 for ipix in range(mp.Fend.corr.Npix):
 
                     if mp.est.flagUseJac:
-                        dE = dEplus[ipix, :].T
-                        H = np.array([np.real(dE), np.imag(dE)])
+                        dE = dEplus[ipix, :]
+                        H = np.array([np.real(dE), np.imag(dE)]).T
                         Epix = np.linalg.pinv(H) @ zAll[:, ipix]  # Batch processing
                     else:
                         allProbeInds = np.arange(Npairs, dtype=int)
-- 
2.43.0


From fd41d3332fa5b96d5944a9fb99de2ef25fdcd2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:48 +0000
Subject: [PATCH 26/26] fix: gradient of the command penalty is proportional to
 the command

---
 falco/model/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index d2b46d7..0981c84 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -630,7 +630,7 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     gradient = np.concatenate((Vout1.reshape([mp.dm1.NactTotal])[mp.dm1.act_ele],
                                Vout2.reshape([mp.dm2.NactTotal])[mp.dm2.act_ele]),
                               axis=None)
-    gradient += 2 * utu_coef * gradient
+    gradient += 2 * utu_coef * command_vec
 
     return total_cost, gradient
 
-- 
2.43.0

