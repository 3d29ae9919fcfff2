From d67cda98e603db643a6c4d65e176ed0169e7cdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 01/34] fix: rebin_template reused the edge limits of one grid
 for the next

A grid given by its edges alone was checked against the limits of the
previous grid in dedges, so bins outside the template were not rejected.
---
 py/redrock/rebin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/rebin.py b/py/redrock/rebin.py
index caa1b5c..0730d06 100644
--- a/py/redrock/rebin.py
+++ b/py/redrock/rebin.py
@@ -503,9 +503,9 @@ def rebin_template(template, myz, dwave=None, dedges=None, use_gpu=False, xmin=N
                 result[hs] = trapz_rebin(template.wave, template.flux, xnew=wave, myz=myz, use_gpu=use_gpu, xmin=xmin, xmax=xmax)
     elif dedges is not None:
         #Handle the case where dedges is passed because edges is already computed
-        minedge = None
-        maxedge = None
         for hs, edges in dedges.items():
+            minedge = None
+            maxedge = None
             #Check if edges is a 1-d array or a tuple also containing scalar min/max values
             if type(edges) is tuple:
                 (edges, minedge, maxedge) = edges
-- 
2.43.0


From 719d29ebcc6cd565a2ae479c012ae0b1eb9be63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 02/34] fix: multiprocessing scan matched chi2 to the wrong
 targets

The ids of a worker are sorted by weight, its data were in local order.
---
 py/redrock/zscan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 51f383f..7b3cd17 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -1054,7 +1054,9 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
                 if len(mpdist[i]) == 0:
                     continue
                 target_ids = mpdist[i]
-                target_data = [ x for x in targets.local() if x.id in mpdist[i] ]
+                # same order as target_ids
+                local_targets = { x.id:x for x in targets.local() }
+                target_data = [ local_targets[tid] for tid in target_ids ]
                 p = mp.Process(target=_mp_calc_zchi2,
                     args=(i, target_ids, target_data, t, use_gpu, qout, qprog))
                 procs.append(p)
-- 
2.43.0


From 364f359f39438b0d77df03ccdeb412d44070ab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 03/34] fix: DistTargetsCopy ids and data were in different
 orders

Without a communicator local_target_ids() was sorted by weight but local()
was not, so scan results went to the wrong target.
---
 py/redrock/targets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 9a4780e..7264b94 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -558,7 +558,9 @@ class DistTargetsCopy(DistTargets):
 
         self._my_data = None
         if comm is None:
-            self._my_data = targets
+            # same order as the target ids
+            tbuf = { tg.id:tg for tg in targets }
+            self._my_data = [ tbuf[x] for x in self._my_targets ]
         else:
             tbuf = dict()
             for tg in targets:
-- 
2.43.0


From bb38a690b6fb673bf99e09a408783b8b0aa1f99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 04/34] fix: mean gradient of the cosmic rejection divided by
 the wrong weights

The weights were summed over all wavelengths, so the mean was nearly zero
and exposures that agree on a steep spectrum were masked.
---
 py/redrock/targets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 7264b94..fe66884 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -339,7 +339,7 @@ class Target(object):
                 grad=np.array(grad)
                 gradivar=1/np.array(gradvar)
                 nspec=grad.shape[0]
-                meangrad=np.sum(gradivar*grad,axis=0)/np.sum(gradivar)
+                meangrad=np.sum(gradivar*grad,axis=0)/np.sum(gradivar,axis=0)
                 deltagrad=grad-meangrad
                 chi2=np.sum(gradivar*deltagrad**2,axis=0)/(nspec-1)
 
-- 
2.43.0


From 1450af3219fd6949e574fff1a7093da6ac08ac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 05/34] fix: cosmic rejection crashed on an exposure without
 good pixels

---
 py/redrock/targets.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index fe66884..f828660 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -293,6 +293,7 @@ class Target(object):
             ivar=[] # references
             grad=[] # gradients, copy
             gradvar=[]
+            gradspec=[] # exposure of each gradient
             for s in self.spectra:
                 if s.wavehash != key: continue
                 nspec += 1
@@ -307,7 +308,8 @@ class Target(object):
                 flux.append(s.flux)
                 ivar.append(s.ivar)
 
-                if cosmics_nsig > 0 :
+                # an exposure without good pixels has no gradient to compare
+                if cosmics_nsig > 0 and np.any(s.ivar>0):
                     # interpolate over bad measurements
                     # to be able to compute gradient next
                     # to a bad pixel and identify oulier
@@ -330,6 +332,7 @@ class Target(object):
                     tflux[0]  = 0
                     grad.append(tflux)
                     gradvar.append(tvar)
+                    gradspec.append(nspec-1)
 
             flux=np.array(flux)
             ivar=np.array(ivar)
@@ -338,17 +341,17 @@ class Target(object):
                 # detect outliers by comparing spectra
                 grad=np.array(grad)
                 gradivar=1/np.array(gradvar)
-                nspec=grad.shape[0]
+                ngrad=grad.shape[0]
                 meangrad=np.sum(gradivar*grad,axis=0)/np.sum(gradivar,axis=0)
                 deltagrad=grad-meangrad
-                chi2=np.sum(gradivar*deltagrad**2,axis=0)/(nspec-1)
+                chi2=np.sum(gradivar*deltagrad**2,axis=0)/(ngrad-1)
 
                 jj=np.where(chi2>cosmics_nsig**2)[0]
                 for j in jj :
                     k=np.argmax(gradivar[:,j]*deltagrad[:,j]**2)
                     #k=np.argmax(flux[:,j])
                     #print("masking spec",k,"wave=",wave[j],"flux=",flux[k,j])
-                    ivar[k][j]=0.
+                    ivar[gradspec[k]][j]=0.
 
             unweightedflux = np.sum(flux,axis=0)
             weights        = np.sum(ivar,axis=0)
-- 
2.43.0


From 166e020fc470ab1c3341c2cf4a974c73022a3b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 06/34] fix: coadded resolution ignored the weights zeroed by
 cosmic rejection

The sum over exposures used the original weights but was divided by the
ones left after the rejection.
---
 py/redrock/targets.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index f828660..e5b6698 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -286,7 +286,7 @@ class Target(object):
             unweightedflux = None
             weightedflux = None
             weights = None
-            Rdiags = None
+            Rdata = []
             offsets = None
             nspec = 0
             flux=[] # references
@@ -300,11 +300,10 @@ class Target(object):
                 current_band = s.band
                 if wave is None :
                     wave = s.wave
-                    Rdiags = s.R.data * s.ivar
                     offsets = s.R.offsets
                 else :
                     assert len(s.wave) == len(wave)
-                    Rdiags += s.R.data * s.ivar
+                Rdata.append(s.R.data)
                 flux.append(s.flux)
                 ivar.append(s.ivar)
 
@@ -359,7 +358,7 @@ class Target(object):
             isbad = (weights == 0)
             flux = weightedflux / (weights + isbad)
             flux[isbad] = unweightedflux[isbad] / nspec
-            Rdiags /= (weights + isbad)
+            Rdiags = sum(r*w for r, w in zip(Rdata, ivar)) / (weights + isbad)
             nwave = Rdiags.shape[1]
             R = scipy.sparse.dia_matrix((Rdiags, offsets),
                                             shape=(nwave, nwave))
-- 
2.43.0


From d0f7848d4a145e79ff2c0339231da0a8e42f0ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 07/34] fix: Target.bands listed one band per exposure, also
 after a coadd

Per-camera archetype fits took the number of cameras from this list, so a
target with several exposures was fitted with phantom cameras.
---
 py/redrock/targets.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index e5b6698..1b517bc 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -177,9 +177,12 @@ class Target(object):
         self._legendre = None
         self._gpulegendre = None
         self.nleg = 0
-        self.bands = []
-        for s in spectra:
-            self.bands.append(s.band)
+        self._set_bands()
+
+    def _set_bands(self):
+        """Update the bands of the current spectra, one per wavelength grid,
+        in order of first appearance."""
+        self.bands = list({ s.wavehash:s.band for s in self.spectra }.values())
 
     def eval_model(self, bestfit, templates, archetypes=None, nleg=None):
         """
@@ -372,6 +375,7 @@ class Target(object):
 
         # swap the coadds into place.
         self.spectra = coadd
+        self._set_bands()
         return
 
     def sharedmem_pack(self):
-- 
2.43.0


From 5231a6faff16fc89f99a169224e568148074a5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 08/34] fix: eval_model gave cameras the Legendre terms of
 another camera

The terms are saved in sorted band order, spectra may come in any order.
---
 py/redrock/targets.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 1b517bc..91950f3 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -224,10 +224,13 @@ class Target(object):
             narchetypes = len(subtype.split(';'))
             archcoeff, legcoeff = coeff[0:narchetypes], bestfit["LEGCOEFF"]
             if legcoeff.ndim==1:
-                legcoeff = [legcoeff for i in range(len(self.spectra))]
+                legcoeff = { sp.band:legcoeff for sp in self.spectra }
+            else:
+                # per-camera coefficients are saved in sorted order of the bands
+                legcoeff = dict(zip(sorted({ sp.band for sp in self.spectra }), legcoeff))
             ax = archetypes[spectype]
-            for i, sp in enumerate(self.spectra):
-                self.model[sp.wavehash] = ax.eval(subtype, archcoeff, sp.wave, z, R=sp.Rcsr, legcoeff=legcoeff[i])
+            for sp in self.spectra:
+                self.model[sp.wavehash] = ax.eval(subtype, archcoeff, sp.wave, z, R=sp.Rcsr, legcoeff=legcoeff[sp.band])
 
         else:
             tx = templates[(spectype, subtype)]
-- 
2.43.0


From 449e421ff84f8efb2c2641ef4ea864b62489a94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 09/34] fix: Template.eval left out the IGM transmission used
 in the fit

Models of high redshift targets were not the ones whose chi2 was reported.
---
 py/redrock/templates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index a12a86b..30ffb1a 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -266,6 +266,7 @@ class Template(object):
         coeff = coeff[0:self.nbasis]
         flux = self.flux.T.dot(coeff).T
         model = trapz_rebin(self.wave*(1+z), flux, wave)
+        model *= transmission_Lyman(z, wave, model=self.igm_model)
         if R is not None:
             model = R.dot(model)
 
-- 
2.43.0


From a456ae4fe2bd9d292a3b5bef766d000e0c5681eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 10/34] fix: templates.eval_model failed without resolution
 matrices

---
 py/redrock/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index 30ffb1a..f5459be 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -828,7 +828,7 @@ def eval_model(data, wave, R=None, templates=None):
         tx = templates[(data['SPECTYPE'][i], data['SUBTYPE'][i])]
         coeff = data['COEFF'][i][0:tx.nbasis]
         z = data['Z'][i]
-        models[i] = tx.eval(coeff, wave, z, R=R[i])
+        models[i] = tx.eval(coeff, wave, z, R=(None if R is None else R[i]))
 
     return models
 
-- 
2.43.0


From 1bf95f5a4221623f03218dc493c6a5cf70d3fe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 11/34] fix: archetype fits without a coefficient prior failed
 with a NameError

---
 py/redrock/fitz.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index 82bb65d..0c110f6 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -331,11 +331,11 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
                 chi2=chi2min, zz=zz, zzchi2=zzchi2,
                 coeff=coeff, fitmethod=template.method))
         else:
+            if per_camera:
+                ncamera = len(list(dwave.keys())) # number of cameras, for e.g. DESI has three cameras
+            else:
+                ncamera = 1
             if prior_sigma is not None:
-                if per_camera:
-                    ncamera = len(list(dwave.keys())) # number of cameras, for e.g. DESI has three cameras
-                else:
-                    ncamera = 1
                 if n_nearest is None:
                     prior = prior_on_coeffs(1, deg_legendre, prior_sigma, ncamera)
                 else:
-- 
2.43.0


From cf8a62567628a40b6d3daa56818d95ace20229ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 12/34] fix: nearest archetypes without a coefficient prior
 failed

---
 py/redrock/archetypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index dae679a..ef0783a 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -361,7 +361,8 @@ class Archetype():
         # because prior was defined based on n_nearest argument..
         # this logic is needed because the first fitting is done with just one archetype
         #and then nearest neighbour approach is implemented
-        if n_nearest is not None:
+        nnearest_prior = None
+        if n_nearest is not None and prior is not None:
             nnearest_prior = prior.copy() # prior corresponding to nearest_nbh method
             prior = prior[n_nearest-1:,][:,n_nearest-1:] # removing first rows/columns corresponding to the nearest_archetypes, and keeping just one row for one archetype
 
-- 
2.43.0


From b7d4a464ba9e624e37612d0ecbc4198e8f653661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 13/34] fix: nearest archetypes fitted over all cameras had no
 solver

---
 py/redrock/archetypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index ef0783a..62a55b8 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -284,7 +284,10 @@ class Archetype():
             (zzchi2, zzcoeff) = per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux, nleg, 1, method='bvls', n_nbh=n_nearest, prior=prior, use_gpu=False, bands=target.bands)
         else:
             #Use CPU mode for calc_zchi2 since small tdata
-            (zzchi2, zzcoeff) = calc_zchi2_batch(spectra, tdata, weights, flux, wflux, 1, nbasis, use_gpu=False)
+            bounds = np.zeros((2, nbasis))
+            bounds[0][n_nearest:] = -np.inf # only the archetypes must have coefficients >= 0
+            bounds[1] = np.inf
+            (zzchi2, zzcoeff) = calc_zchi2_batch(spectra, tdata, weights, flux, wflux, 1, nbasis, use_gpu=False, solve_matrices_algorithm='BVLS', solver_args={'bounds':bounds})
 
         sstype = ['%s'%(self._subtype[k]) for k in iBest] # subtypes of best archetypes
         fsstype = ';'.join(sstype)
-- 
2.43.0


From 26019eec12b6d9cdf6f828e0a1910790ea873803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 14/34] fix: read_zfit returned some of the string columns as
 bytes

write_zscan encodes five string columns, only two were decoded.
---
 py/redrock/results.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index 151d6cd..641a78f 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -199,8 +199,9 @@ def read_zfit(filename, select_targetids=None, upper=False):
 
         zfit = [fx[f'zfit/{tid}/zfit'][:] for tid in select_targetids]
         zfit = Table(np.hstack(zfit))
-        zfit.replace_column('spectype', encode_column(zfit['spectype']))
-        zfit.replace_column('subtype', encode_column(zfit['subtype']))
+        for colname in ('spectype', 'subtype', 'fitmethod', 'pca_spectype', 'pca_subtype'):
+            if colname in zfit.colnames and zfit[colname].dtype.kind == 'S':
+                zfit.replace_column(colname, encode_column(zfit[colname]))
 
     if upper:
         for colname in list(zfit.colnames):
-- 
2.43.0


From 49fe9c83ab6b9573ba275e719d222b8509e7bb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 15/34] fix: read_zscan failed on details files of archetype
 fits

Its candidates were looked up by archetype, scans are stored by template.
---
 py/redrock/results.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index 641a78f..35cb8b2 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -157,14 +157,17 @@ def read_zscan(filename, select_targetids=None, upper=False, nozfit=False):
 
         #- Add zfit information too
         zfit = read_zfit(filename, select_targetids=select_targetids, upper=upper)
+        targetid_col = 'targetid'
+        spectype_col = 'spectype'
+        subtype_col = 'subtype'
+        #- archetype fits have the subtype of the archetype, scans that of the template
+        if 'pca_spectype' in (x.lower() for x in zfit.colnames):
+            spectype_col = 'pca_spectype'
+            subtype_col = 'pca_subtype'
         if upper:
-            targetid_col = 'TARGETID'
-            spectype_col = 'SPECTYPE'
-            subtype_col = 'SUBTYPE'
-        else:
-            targetid_col = 'targetid'
-            spectype_col = 'spectype'
-            subtype_col = 'subtype'
+            targetid_col = targetid_col.upper()
+            spectype_col = spectype_col.upper()
+            subtype_col = subtype_col.upper()
 
         for zfit_tid in zfit.group_by( (targetid_col, spectype_col, subtype_col) ).groups:
             targetid = zfit_tid[targetid_col][0]
-- 
2.43.0


From d8d7886ef813bfe815918512ae3a9d4eb2c86166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 16/34] fix: per-camera archetype coefficients were in spectra
 order

They are documented, and used in eval_model, in sorted order of the
cameras, but the dictionary kept the order it was first filled in.
---
 py/redrock/zscan.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 7b3cd17..6023990 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -275,14 +275,14 @@ def per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux
     ncam = len(bands)
     nbasis = n_nbh+nleg*ncam # n_nbh : for actual physical archetype(s), nleg: number of legendre polynomials, ncamera: number of cameras
 
+    new_bands = sorted(bands) # saves as correct order
+
     ret_zcoeff = {}
     ret_zcoeff['alpha'] = []
     if nleg>0:
-        for b in bands: # bands as save in targets object
+        for b in new_bands: # coefficients are concatenated in this order
             ret_zcoeff[b] = []
 
-    new_bands = sorted(bands) # saves as correct order
-
     #Setup dict of solver args to pass bounds to solver
     method = method.upper()
     solver_args = dict()
-- 
2.43.0


From deedf9bd1e97dfb269152f832010582c09ca047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:38 +0000
Subject: [PATCH 17/34] fix: details files keep candidate numbers above 127
 (int8 wrapped around; write failed from 257 candidates)

---
 py/redrock/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index 35cb8b2..7070dd7 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -58,8 +58,8 @@ def write_zscan(filename, zscan, zfit, clobber=False):
 
     zfit['zwarn'] = zfit['zwarn'].astype(np.int32)
     zfit['npixels'] = zfit['npixels'].astype(np.int32)
-    zfit['znum'] = zfit['znum'].astype(np.int8)
-    zfit['ncoeff'] = zfit['ncoeff'].astype(np.int8)
+    zfit['znum'] = zfit['znum'].astype(np.int16)
+    zfit['ncoeff'] = zfit['ncoeff'].astype(np.int16)
 
     zbest = zfit[zfit['znum'] == 0]
     zbest.remove_column('znum')
-- 
2.43.0


From b1660be5cecfd9affd9f0f467edaf59c5560298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:39 +0000
Subject: [PATCH 18/34] fix: apply MASK HDUs to the right spectra when some
 cameras or files have none

---
 py/redrock/external/desi.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index e319478..2548b7e 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -582,15 +582,17 @@ class DistTargetsDESI(DistTargets):
                 if comm is not None:
                     hdata = comm.bcast(hdata, root=0)
 
-                if hdata is not None:
-                    toff = 0
-                    for t in self._my_targets:
-                        if t in self._target_specs[sfile]:
-                            for trow in self._target_specs[sfile][t]:
+                #- not every camera of every file has a mask, but the offset
+                #- within the spectra of each target advances regardless
+                toff = 0
+                for t in self._my_targets:
+                    if t in self._target_specs[sfile]:
+                        for trow in self._target_specs[sfile][t]:
+                            if hdata is not None:
                                 self._my_data[toff].spectra[tspec_mask[t]]\
                                     .ivar *= (hdata[trow] == 0)
-                                tspec_mask[t] += 1
-                        toff += 1
+                            tspec_mask[t] += 1
+                    toff += 1
 
                 extname = "{}_{}".format(b.upper(), "RESOLUTION")
                 hdata = None
-- 
2.43.0


From 45653b3357b3139af16c086955a8599972c25a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:40 +0000
Subject: [PATCH 19/34] fix: pixels without trustworthy resolution get no
 weight when reading individual DESI spectra

---
 py/redrock/external/desi.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 2548b7e..bd55003 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -40,6 +40,8 @@ from ..zfind import zfind
 
 from ..zwarning import ZWarningMask
 
+from .. import constants
+
 from .._version import __version__
 
 from ..archetypes import All_archetypes, Archetype
@@ -635,6 +637,11 @@ class DistTargetsDESI(DistTargets):
                         for trow in self._target_specs[sfile][t]:
                             dia = Resolution(hdata[trow].astype(np.float64))
                             self._my_data[toff].spectra[tspec_res[t]].R = dia
+                            #- as in Spectrum.__init__: no weight without a
+                            #- trustworthy resolution
+                            badres = np.asarray(dia.sum(axis=1))[:,0] < \
+                                constants.min_resolution_integral
+                            self._my_data[toff].spectra[tspec_res[t]].ivar[badres] = 0.0
                             #- Coadds replace Rcsr so only compute if not coadding
                             if not coadd and cache_Rcsr:
                                 self._my_data[toff].spectra[tspec_res[t]]._Rcsr = dia.tocsr()
-- 
2.43.0


From 2d30ff700e7d6584d3fe7f4b4d042621e4489028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:10 +0000
Subject: [PATCH 20/34] fix: first_target without n_target selects the
 remaining targets of each file

---
 py/redrock/external/desi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index bd55003..5ca7d50 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -362,7 +362,7 @@ class DistTargetsDESI(DistTargets):
                     format(first_target))
 
             if n_target is None:
-                nkeep = len(keep_targetids)
+                nkeep = len(keep_targetids) - first_target
             else:
                 nkeep = n_target
 
-- 
2.43.0


From d288750e0babc479aec87293ef52ec003770cfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:33 +0000
Subject: [PATCH 21/34] fix: keep target ids integers when a process has no
 targets to model

---
 py/redrock/external/desi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 5ca7d50..6862b37 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -1224,7 +1224,8 @@ def rrdesi(options=None, comm=None):
                 all_models = list(itertools.chain.from_iterable(all_models))
 
                 #- find sort orrder to match zbest
-                all_targetids = np.concatenate(all_targetids)
+                #- (not np.concatenate, which makes floats of them if a rank has no targets)
+                all_targetids = np.array(list(itertools.chain.from_iterable(all_targetids)))
                 xsorted = np.argsort(all_targetids)
                 ypos = np.searchsorted(all_targetids[xsorted], zbest['TARGETID'])
                 sort_indices = xsorted[ypos]
-- 
2.43.0


From d4a8c54563158c6a90e937fb9cf5dbd8f61709cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:45 +0000
Subject: [PATCH 22/34] fix: 64-bit BOSS target ids also from the 32-bit
 integers stored in files

---
 py/redrock/external/boss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 6e215aa..618cbe0 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -39,7 +39,8 @@ from ..archetypes import All_archetypes
 
 
 def platemjdfiber2targetid(plate, mjd, fiber):
-    return plate*1000000000 + mjd*10000 + fiber
+    #- 64-bit also for the 32-bit integers in which files store them
+    return np.int64(plate)*1000000000 + np.int64(mjd)*10000 + np.int64(fiber)
 
 
 def targetid2platemjdfiber(targetid):
-- 
2.43.0


From ecaea9e9846b1d935054eca1ea6898c1f3630213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:45 +0000
Subject: [PATCH 23/34] fix: plates without exposures in a camera can be read
 with --use-frames

---
 py/redrock/external/boss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 618cbe0..2d9bddc 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -129,7 +129,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
             for c in cameras:
                 try:
                     nexp = spplate[0].read_header()["NEXP_{}".format(c.upper())]
-                except ValueError:
+                except (KeyError, ValueError):
                     print("DEBUG: spplate {} has no exposures in camera {} ".format(spplate_name,c))
                     continue
                 for i in range(1,nexp+1):
-- 
2.43.0


From ee992219b94b3e9ce68b7372733d8ec86353712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:45 +0000
Subject: [PATCH 24/34] fix: select BOSS fibers with np.isin, np.in1d no longer
 exists

---
 py/redrock/external/boss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 2d9bddc..1986e01 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -167,7 +167,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
             assert plate == h[0].read_header()["PLATEID"]
         fs = h[5]["FIBERID"][:]
         if fiberid is not None:
-            w = np.in1d(fs,fiberid)
+            w = np.isin(fs,fiberid)
             fs = fs[w]
 
         fl = h[0].read()
-- 
2.43.0


From 90f047d3cc40677d64c342ab50ba1ab22b593717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:45 +0000
Subject: [PATCH 25/34] fix: BRICKNAME of BOSS targets holds the whole
 PLATE-MJD

---
 py/redrock/external/boss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 1986e01..ec62364 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -265,7 +265,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
         # will end up as extra columns in the output ZBEST HDU.
         tmeta = dict()
         tmeta["BRICKNAME"] = bricknames[targetid]
-        tmeta["BRICKNAME_datatype"] = "S8"
+        tmeta["BRICKNAME_datatype"] = "S16"
         if len(spectra) > 0:
             targets.append(Target(targetid, spectra, coadd=coadd, meta=tmeta))
         else:
@@ -280,7 +280,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
 
     metatable = Table()
     metatable['TARGETID'] = targetids
-    bx = np.array([bricknames[t] for t in targetids], dtype='S8')
+    bx = np.array([bricknames[t] for t in targetids], dtype='S16')
     metatable['BRICKNAME'] = bx
 
     # metatable = Table(names=("TARGETID", "BRICKNAME"), dtype=("i8", "S8",))
-- 
2.43.0


From 0ecd9e47408f80a8a8f44578296fca3609410958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:45 +0000
Subject: [PATCH 26/34] fix: rrboss --mintarget works without --ntargets

---
 py/redrock/external/boss.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index ec62364..5697744 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -450,9 +450,12 @@ def rrboss(options=None, comm=None):
             use_frames=args.use_frames, coadd=(not args.allspec),
             cache_Rcsr=True, use_andmask=args.use_andmask)
 
-        if args.ntargets is not None:
-            targets = targets[first_target:first_target+n_targets]
-            meta = meta[first_target:first_target+n_targets]
+        if first_target is not None:
+            last_target = None
+            if n_targets is not None:
+                last_target = first_target + n_targets
+            targets = targets[first_target:last_target]
+            meta = meta[first_target:last_target]
 
         stop = elapsed(start, "Read of {} targets"\
             .format(len(targets)), comm=comm)
-- 
2.43.0


From 37234c812e1abe8ba8f47a3e50c9c1f5d8d1d3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:39 +0000
Subject: [PATCH 27/34] fix: a stored chi2 scan works with several processes

---
 py/redrock/zfind.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index e2fd2fd..4d2613f 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -289,7 +289,9 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
     if chi2_scan is None:
         results = calc_zchi2_targets(targets, templates, mp_procs=mp_procs, use_gpu=use_gpu)
     else:
+        #- keep only our own targets, the file can have others
         results = read_zscan_redrock(chi2_scan)
+        results = { tgid: results[tgid] for tgid in targets.local_target_ids() }
     elapsed(start_zscan, "Scanning redshifts", comm=targets.comm)
 
     if (use_gpu):
-- 
2.43.0


From 4875fa37e3bacf0df9dc297291ebca66d75a9cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:39 +0000
Subject: [PATCH 28/34] fix: interpolated archetypes honour indx

---
 py/redrock/archetypes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index 62a55b8..00e48a8 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -167,10 +167,13 @@ class Archetype():
             #Use batch mode of trapz_rebin
             return {hs:trapz_rebin((1.+z)*wave, flux, w, use_gpu=use_gpu) for hs, w in dwave.items()}
         else:
+            index = np.arange(self._narch)
+            if (indx is not None):
+                index = index[indx]
             for hs, w in dwave.items():
-                result[hs] = np.empty((len(w), self._narch))
-                for i in range(self._narch):
-                    result[hs][:,i] = self._archetype['INTERP'][i](w/(1.+z))
+                result[hs] = np.empty((len(w), len(index)))
+                for i, j in enumerate(index):
+                    result[hs][:,i] = self._archetype['INTERP'][j](w/(1.+z))
                 if (use_gpu):
                     result[hs] = cp.asarray(result[hs])
             #return {hs:self._archetype['INTERP'](wave/(1.+z)) for hs, wave in dwave.items()}
-- 
2.43.0


From dc4d719cbdc8564d5a5e511294be5c7a701127de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:54 +0000
Subject: [PATCH 29/34] fix: columns of archetype fits are kept when only some
 templates have archetypes

---
 py/redrock/zfind.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 4d2613f..828a87a 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -530,24 +530,29 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             ## Equivalent of astropy.table.vstack(tzfit) - vstack each array
 
             tzfit2 = dict()
-            for k in tzfit[0].keys():
+            #- archetypes can be for some of the spectypes only, thus not all have all keys
+            keys = list()
+            for tmp in tzfit:
+                keys.extend([k for k in tmp.keys() if k not in keys])
+            for k in keys:
                 tzfit2[k] = list()
-                ref = tzfit[0][k]  # reference array
+                ref = [tmp[k] for tmp in tzfit if k in tmp.keys()][0]  # reference array
                 for i in range(len(tzfit)):
                     if k in tzfit[i].keys():
                         val = tzfit[i][k]
-                        if archetypes and k in pca_map:
-                            # this is to make sure in case of archetypes for multiple spectype we have uniform size for arrays
-                            val = np.pad(val, ((0,0),(0, max(0, ref.shape[1] - val.shape[1]))), constant_values=0)[:, :ref.shape[1]]
                     else:
                         row = tzfit[i]
                         if archetypes and k in pca_map and pca_map[k] in row:
                             val = row[pca_map[k]]
-                            val = np.pad(val, ((0,0),(0, max(0, ref.shape[1] - val.shape[1]))), constant_values=0)[:, :ref.shape[1]]
                         elif k in zero_like_keys:
-                            val = np.zeros_like(ref)
+                            val = np.zeros((len(row['chi2']),) + ref.shape[1:], dtype=ref.dtype)
                     tzfit2[k].append(val)
 
+                if archetypes and k in pca_map:
+                    # this is to make sure in case of archetypes for multiple spectype we have uniform size for arrays
+                    width = max([val.shape[1] for val in tzfit2[k]])
+                    tzfit2[k] = [np.pad(val, ((0,0),(0, width - val.shape[1])), constant_values=0) for val in tzfit2[k]]
+
                 tzfit2[k] = np.vstack(tzfit2[k])
                 if (k != 'coeff') and (tzfit2[k].shape[1] == 1):
                     tzfit2[k] = tzfit2[k].flatten()
-- 
2.43.0


From 0582948d2e3a68772f27e1091445f5ec47b15e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:54 +0000
Subject: [PATCH 30/34] fix: Legendre coefficients of a single camera stay one
 row per candidate

---
 py/redrock/zfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 828a87a..3642e5b 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -554,7 +554,7 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
                     tzfit2[k] = [np.pad(val, ((0,0),(0, width - val.shape[1])), constant_values=0) for val in tzfit2[k]]
 
                 tzfit2[k] = np.vstack(tzfit2[k])
-                if (k != 'coeff') and (tzfit2[k].shape[1] == 1):
+                if (k != 'coeff') and (tzfit2[k].ndim == 2) and (tzfit2[k].shape[1] == 1):
                     tzfit2[k] = tzfit2[k].flatten()
             tzfit = tzfit2
 
-- 
2.43.0


From cbed81e231aaf9b6918180e3f4871f34f8f928d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:54 +0000
Subject: [PATCH 31/34] fix: more nearest archetypes than template coefficients

---
 py/redrock/zfind.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 3642e5b..40f573e 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -704,6 +704,7 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
         else:
             ntarg, ncoeff = allzfit['coeff'].shape
 
+        maxcoeff = max(maxcoeff, ncoeff)
         if ncoeff != maxcoeff:
             coeff = np.zeros((ntarg, maxcoeff), dtype=allzfit['coeff'].dtype)
             coeff[:,0:ncoeff] = allzfit['coeff']
-- 
2.43.0


From 3d81900de5726f9a157763eecc2aa70c6632e715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:54 +0000
Subject: [PATCH 32/34] fix: negative model flag is for archetype fits only

---
 py/redrock/zfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 40f573e..c3ee733 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -564,7 +564,7 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             tzfit['targetid'] = np.array([tid]*l)
 
             if (archetypes):
-                if (len(archetype_spectype)==len(all_spectype)):
+                if set(all_spectype).issubset(archetype_spectype):
                     if n_nearest is None:
                         if tzfit["coeff"].ndim==1: ## this makes sure that code doesn't fail if --archetypes-no-legendre is provided
                             tzfit["coeff"] = tzfit["coeff"].reshape(-1, 1)
-- 
2.43.0


From 703539a001f555698e20b1bbe5ca722f6c690aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:09 +0000
Subject: [PATCH 33/34] fix: eval_model kept the Legendre terms only with a
 non-zero archetype coefficient

An archetype fit whose archetype coefficients are all zero (lower bound
active) still has Legendre terms; the evaluated model was zero instead.
---
 py/redrock/targets.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 91950f3..613e17b 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -215,7 +215,12 @@ class Target(object):
         fitmethod = bestfit['FITMETHOD']
 
         self.model = dict()
-        if np.all(coeff == 0.0):
+        allzero = np.all(coeff == 0.0)
+        if allzero and fitmethod == 'ARCH':
+            # the Legendre terms can be non-zero without any archetype
+            allzero = np.all(bestfit['LEGCOEFF'] == 0.0)
+
+        if allzero:
             # entirely masked data has coeffs=0
             for sp in self.spectra:
                 self.model[sp.wavehash] = np.zeros(len(sp.wave), dtype=np.float32)
-- 
2.43.0


From c6ffff7fef6b79535b76fea2b34e99721f00943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:44 +0000
Subject: [PATCH 34/34] fix: details files of archetype fits without Legendre
 terms

write_zscan failed with 'zero-sized dimension' for the empty column of
Legendre coefficients (rrdesi --archetypes-no-legendre --details).
---
 py/redrock/results.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index 7070dd7..53a00e6 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -52,6 +52,11 @@ def write_zscan(filename, zscan, zfit, clobber=False):
             if zfit[colname].dtype.kind == 'U':
                 zfit.replace_column(colname, np.char.encode(zfit[colname], 'ascii'))
 
+    #- HDF5 can't store columns without values, e.g. Legendre coefficients of degree 0
+    for colname in list(zfit.colnames):
+        if 0 in zfit[colname].shape[1:]:
+            zfit.remove_column(colname)
+
     #- convert columns to lower precision for final output
     for col in ['zerr', 'chi2', 'zz', 'zzchi2', 'coeff', 'deltachi2']:
         zfit[col] = zfit[col].astype(np.float32)
-- 
2.43.0

