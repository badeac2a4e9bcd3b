From 667f151fb793d60a6632e7bf58967394f944e5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 01/26] fix: honour missing times given as a masked array or as
 NaT

---
 utide/_time_conversion.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utide/_time_conversion.py b/utide/_time_conversion.py
index 0550674..e959cac 100644
--- a/utide/_time_conversion.py
+++ b/utide/_time_conversion.py
@@ -36,8 +36,8 @@ def _date2num(date, epoch="1970-01-01 00:00:00.000"):
             f"Cannot convert epoch argument ({epoch}) to numpy datetime64 dtype.",
         ) from err
 
-    # datenum calculation
-    datenum = (date - epoch).astype(float) / _MS_PER_DAY
+    # datenum calculation; NaT yields nan
+    datenum = (date - epoch) / np.timedelta64(_MS_PER_DAY, "ms")
     return datenum
 
 
@@ -61,6 +61,10 @@ def _normalize_time(t, epoch=None):
     `t` input time or datenum array
     `epoch` either 'python', 'matlab', or np.datetime64 compatible value
     """
+    if np.ma.isMaskedArray(t):
+        # Keep the mask: masked times are missing, whatever is stored there.
+        return np.ma.array(_normalize_time(t.data, epoch), mask=np.ma.getmaskarray(t))
+
     t = np.asarray(t)
 
     if epoch is None:
-- 
2.43.0


From 0517d9f61510c135ecaa518cf4360484e157a981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 02/26] fix: accept array_like inputs (lists, tuples) in solve,
 as documented

---
 utide/_solve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 1011d64..db28bae 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -466,6 +466,11 @@ def _slvinit(tin, uin, vin, lat, **opts):
     if lat is None:
         raise ValueError("Latitude must be supplied")
 
+    tin = np.asanyarray(tin)
+    uin = np.asanyarray(uin)
+    if vin is not None:
+        vin = np.asanyarray(vin)
+
     # Supporting only 1-D arrays for now; we can add "group"
     # support later.
     if tin.shape != uin.shape or tin.ndim != 1 or uin.ndim != 1:
-- 
2.43.0


From e8fd0dbbca25d99b51e301d0f56bc57c84a8056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 03/26] fix: accept a plain dict for infer, without modifying
 the caller's object

---
 utide/_solve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index db28bae..dabd58d 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -89,9 +89,9 @@ def validate_infer(infer, is_2D):
     if infer is None or infer == "none":
         return None
     required_keys = {"inferred_names", "reference_names", "amp_ratios", "phase_offsets"}
-    keys = set(infer.keys())
-    if keys < required_keys:
-        raise ValueError(f"infer option must include {required_keys:s}")
+    if not required_keys <= set(infer.keys()):
+        raise ValueError(f"infer option must include {sorted(required_keys)}")
+    infer = Bunch(infer)  # Accept any dict, and leave the caller's as it is.
     nI = len(infer.inferred_names)
     if len(infer.reference_names) != nI:
         raise ValueError("inferred_names must be same" "  length as reference_names")
-- 
2.43.0


From a43e04592e808b73f2140d9ba7f9f2eeb31fd2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 04/26] fix: do not share the mutable default options with
 returned results

---
 utide/_solve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index dabd58d..a04c99a 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -2,6 +2,8 @@
 Central module for calculating the tidal amplitudes, phases, etc.
 """
 
+import copy
+
 import numpy as np
 
 from ._time_conversion import _normalize_time
@@ -32,7 +34,7 @@ default_opts = {
 
 
 def _process_opts(opts, is_2D):
-    newopts = Bunch(default_opts)
+    newopts = Bunch(copy.deepcopy(default_opts))
     newopts.update_values(strict=True, **opts)
     # TODO: add more validations.
     newopts.infer = validate_infer(newopts.infer, is_2D)
-- 
2.43.0


From d9fce83668aef12ea6bc7323062ab24c36d3382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 05/26] fix: make the andrews, huber and logistic robust
 weights work on arrays

---
 utide/robustfit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index 8f19a20..a59d0ac 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -11,7 +11,7 @@ from utide.utilities import Bunch
 # Weighting functions:
 def andrews(r):
     r = np.abs(r)
-    r = max(np.sqrt(np.spacing(1)), r)
+    r = np.maximum(np.sqrt(np.spacing(1)), r)
     w = (r < np.pi) * np.sin(r) / r
     return w
 
@@ -34,13 +34,13 @@ def fair(r):
 
 
 def huber(r):
-    w = 1 / max(1, np.abs(r))
+    w = 1 / np.maximum(1, np.abs(r))
     return w
 
 
 def logistic(r):
     r = np.abs(r)
-    r = max(np.sqrt(np.single(1)), r)
+    r = np.maximum(np.sqrt(np.spacing(1)), r)
     w = np.tanh(r) / r
     return w
 
-- 
2.43.0


From cc5af7493fc62043f3856063ef9498d921dc4e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 06/26] fix: nodal corrections at the equator

---
 utide/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/harmonics.py b/utide/harmonics.py
index 33680d3..663a6e0 100644
--- a/utide/harmonics.py
+++ b/utide/harmonics.py
@@ -119,7 +119,7 @@ def FUV(t, tref, lind, lat, ngflgs):
         astro, ader = ut_astron(tt)
 
         if abs(lat) < 5:
-            lat = np.sign(lat) * 5
+            lat = np.copysign(5, lat)  # not sign(lat), which is 0 at the equator
 
         slat = np.sin(np.deg2rad(lat))
         rr = sat.amprat.copy()
-- 
2.43.0


From a266e0403d994369e5828a382cfac32dc18da34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 07/26] fix: scale the u variances by the residual spectrum in
 2-D linear intervals

---
 utide/confidence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utide/confidence.py b/utide/confidence.py
index 567f0cf..1b0c3bb 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -247,6 +247,9 @@ def _confidence(
             else:
                 varcov_mCw[c, :, :] = np.diag(np.array([varXu, varYu, varXv, varYv]))
                 if not opt["white"]:
+                    den = varXu + varYu
+                    varXu = Puu[c] * varXu / den
+                    varYu = Puu[c] * varYu / den
                     den = varXv + varYv
                     varXv = Pvv[c] * varXv / den
                     varYv = Pvv[c] * varYv / den
-- 
2.43.0


From 32c5ccf4a02b83e14211f1c2cc8bfcd66be00c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 08/26] fix: Monte Carlo orientation and phase intervals near
 theta = 0 or 180

---
 utide/confidence.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 1b0c3bb..af80f8d 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -345,11 +345,15 @@ def _confidence(
                     1.96 * np.median(np.abs(Lsmin - np.median(Lsmin))) / 0.6745
                 )  # noqa
                 theta[0] = coef.theta[c]
-                theta = cluster(theta, 360)
+                g[0] = coef.g[c]
+                # (theta, g) and (theta +- 180, g +- 180) are the same ellipse;
+                # use the one with theta closest to the estimate.
+                half_turns = 180 * np.round((theta - theta[0]) / 180)
+                theta = theta - half_turns
+                g = g - half_turns
                 coef.theta_ci[c] = (
                     1.96 * np.median(np.abs(theta - np.median(theta))) / 0.6745
                 )  # noqa
-                g[0] = coef.g[c]
                 g = cluster(g, 360)
                 coef.g_ci[c] = (
                     1.96 * np.median(np.abs(g - np.median(g))) / 0.6745
-- 
2.43.0


From 883986630ed153be4b926822fd999cf891d24e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 09/26] fix: str() of an empty Bunch

---
 utide/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utide/utilities.py b/utide/utilities.py
index 0c83749..342df93 100644
--- a/utide/utilities.py
+++ b/utide/utilities.py
@@ -94,8 +94,8 @@ class Bunch(dict):
             klens.append(lenk)
             vlens.append(lenv)
 
-        klen = min(20, max(klens))
-        vlen = min(40, max(vlens))
+        klen = min(20, max(klens, default=0))
+        vlen = min(40, max(vlens, default=0))
         slist = [fmt.format(key, value, klen=klen, vlen=vlen) for key, value in items]
         return "".join(slist)
 
-- 
2.43.0


From 7389e405f1a13d99f405a8bad492711a643abb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 10/26] fix: misfit variance from the residuals, so that it
 cannot be negative

---
 utide/confidence.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index af80f8d..3ec69d3 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -179,27 +179,28 @@ def _confidence(
         Puu, Pvv, Puv = band_averaged_psd_by_constit(tin, t, e, elor, coef, opt)  # noqa
 
     # Make temporaries for quantities needed more than once.
-    _Wx = W * xraw
+    # Matlab is recalculating xmod here; but we already have it.
+    resid = xraw - xmod
+    _Wr = W * resid
     _WB = W[:, np.newaxis] * B
 
-    # Matlab is recalculating xmod here; but we already have it.
-    # In the 1-D case xmod is only the real part, but in that
-    # case _Wx is real, and we are taking the real part in the
-    # end, so the imaginary part would not contribute anything.
     nt = len(xraw)
     nm = B.shape[1]
 
-    # Mean Square Misfit: Eq. 52 (mean squared error).
-    varMSM = np.real(np.dot(xraw.conj(), _Wx) - np.dot(xmod.conj(), _Wx)) / (nt - nm)
+    # Mean Square Misfit: Eq. 52 (mean squared error).  It is calculated from
+    # the residuals rather than as the difference of two large sums, which
+    # can be negative because of floating point errors, or because robust
+    # residuals are not exactly orthogonal to the model.
+    varMSM = np.real(np.dot(resid.conj(), _Wr)) / (nt - nm)
 
     # Gamma_C: covariance Eq. 54.
     gamC = np.linalg.inv(np.dot(B.conj().T, _WB)) * varMSM
 
     # Gamma_P: pseudo-covariance Eq. 54.
     gamP = np.linalg.inv(np.dot(B.T, _WB))
-    gamP *= (np.dot(xraw, _Wx) - np.dot(xmod, _Wx)) / (nt - nm)
+    gamP *= np.dot(resid, _Wr) / (nt - nm)
 
-    del _Wx, _WB
+    del _Wr, _WB
 
     # Eq. 55; convenient intermediate variables; see Eq. 51.
     Gall = gamC + gamP
-- 
2.43.0


From f182d85b85d00398815ee46a3fe4d020ad523d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 11/26] fix: allow all requested constituents to be references
 of an inference

---
 utide/constituent_selection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utide/constituent_selection.py b/utide/constituent_selection.py
index 451665c..e18160d 100644
--- a/utide/constituent_selection.py
+++ b/utide/constituent_selection.py
@@ -53,6 +53,8 @@ def ut_cnstitsel(tref, minres, incnstit, infer):
         RI_index_set = {constit_index_dict[n] for n in RIset}
         cnstit.NR.lind = [ind for ind in cnstit.NR.lind if ind not in RI_index_set]
 
+    # An index array even if empty: all may be references or inferred.
+    cnstit.NR.lind = np.array(cnstit.NR.lind, dtype=int)
     cnstit.NR.frq = freqs[cnstit.NR.lind]
     cnstit.NR.name = const.name[cnstit.NR.lind]
     nNR = len(cnstit.NR.frq)
-- 
2.43.0


From a6ef59d2bc4714f79d863435a1e870c99fa0a8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:13 +0000
Subject: [PATCH 12/26] fix: constit given as a pandas Series selected nothing
 in reconstruct

---
 utide/_reconstruct.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utide/_reconstruct.py b/utide/_reconstruct.py
index 67974c5..8be4b58 100644
--- a/utide/_reconstruct.py
+++ b/utide/_reconstruct.py
@@ -95,7 +95,9 @@ def _reconstruct(t, goodmask, coef, verbose, constit, min_SNR, min_PE):
 
     # Determine constituents to include.
     if constit is not None:
-        ind = [i for i, c in enumerate(coef["name"]) if c in constit]
+        # Any array_like: in particular, "in" a pandas Series looks at its index.
+        names = constit if isinstance(constit, str) else list(constit)
+        ind = [i for i, c in enumerate(coef["name"]) if c in names]
     elif (min_SNR == 0 and min_PE == 0) or coef["aux"]["opt"]["nodiagn"]:
         ind = slice(None)
     else:
-- 
2.43.0


From a4675980b79fce15ddff0bb043c8084a412e1439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 13/26] fix: confidence intervals with inference picked columns
 of other constituents

---
 utide/confidence.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 3ec69d3..f96371d 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -220,13 +220,17 @@ def _confidence(
     if not opt["white"]:
         varcov_mCc = np.copy(varcov_mCw)
 
+    # Columns of B with the positive and the negative frequency of each constituent:
+    # those of the references follow both sets of the others.
+    cols = np.arange(2 * nc)
+    nNR, nR = coef.nNR, coef.nR
+    cols_p = np.hstack((cols[:nNR], cols[2 * nNR : 2 * nNR + nR]))
+    cols_m = np.hstack((cols[nNR : 2 * nNR], cols[2 * nNR + nR :]))
+
     for c in range(nc):
-        G = np.array(
-            [[Gall[c, c], Gall[c, c + nc]], [Gall[c + nc, c], Gall[c + nc, c + nc]]],
-        )
-        H = np.array(
-            [[Hall[c, c], Hall[c, c + nc]], [Hall[c + nc, c], Hall[c + nc, c + nc]]],
-        )
+        pm = np.ix_([cols_p[c], cols_m[c]], [cols_p[c], cols_m[c]])
+        G = Gall[pm]
+        H = Hall[pm]
         varXu = np.real(G[0, 0] + G[1, 1] + 2 * G[0, 1]) / 2
         varYu = np.real(H[0, 0] + H[1, 1] - 2 * H[0, 1]) / 2
 
@@ -360,8 +364,6 @@ def _confidence(
                     1.96 * np.median(np.abs(g - np.median(g))) / 0.6745
                 )  # noqa
 
-    nNR = coef.nNR
-
     if opt.infer:
         ind = nc
         if opt.linci:
-- 
2.43.0


From 82878d90a492596e62b2c80d4a1a2aa0778d20da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 14/26] fix: confidence intervals of inferred constituents were
 too narrow

Their phase and orientation intervals were evaluated with the coefficients of
the reference constituent, and in one dimension the positive and negative
frequency coefficients were taken as independent although they are conjugate.
---
 utide/confidence.py | 49 +++++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index f96371d..ecf5b95 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -369,35 +369,36 @@ def _confidence(
         if opt.linci:
             for k, ref in enumerate(cnstit.R):
                 varcov = varcov_mCw if opt.white else varcov_mCc
-                varReap = 0.25 * varcov[nNR + k, 0, 0]
-                varImap = 0.25 * varcov[nNR + k, 1, 1]
-                if opt.twodim:
-                    varReap += 0.25 * varcov[nNR + k, 3, 3]
-                    varImap += 0.25 * varcov[nNR + k, 2, 2]
-                rp = ref.I.Rp
-                rm = ref.I.Rm
-                varXuHH = (rp.real**2 + rm.real**2) * varReap + (
-                    rp.imag**2 + rm.imag**2
-                ) * varImap
-                varYuHH = (rp.real**2 + rm.real**2) * varImap + (
-                    rp.imag**2 + rm.imag**2
-                ) * varReap
-                for varX, varY in zip(varXuHH, varYuHH, strict=False):
+                # Cosine and sine coefficients of the inferred constituents are
+                # linear in those of the reference: (Xu, Yu) or (Xu, Yu, Xv, Yv).
+                r = nNR + k
+                ndim = 4 if opt.twodim else 2
+                XY = np.array([Xu[r], Yu[r], Xv[r], Yv[r]] if opt.twodim else [Xu[r], Yu[r]])
+                var = np.diagonal(varcov[r])
+                for rp, rm in zip(ref.I.Rp, ref.I.Rm, strict=False):
+                    s = rp + rm
+                    d = rp - rm
+                    T = 0.5 * np.array(
+                        [
+                            [s.real, d.imag, -s.imag, d.real],
+                            [-d.imag, s.real, -d.real, -s.imag],
+                            [s.imag, -d.real, s.real, d.imag],
+                            [d.real, s.imag, -d.imag, s.real],
+                        ],
+                    )
+                    T = T[:ndim, :ndim]
+                    XYI = np.dot(T, XY)
+                    sigI = np.sqrt(np.dot(T**2, var))
                     if not opt.twodim:
-                        sig1, sig2 = ut_linci(
-                            Xu[nNR + k],
-                            Yu[nNR + k],
-                            np.sqrt(varX),
-                            np.sqrt(varY),
-                        )
+                        sig1, sig2 = ut_linci(XYI[0], XYI[1], sigI[0], sigI[1])
                         coef.A_ci[ind] = 1.96 * sig1
                         coef.g_ci[ind] = 1.96 * sig2
                     else:
                         sig1, sig2 = ut_linci(
-                            Xu[nNR + k] + 1j * Xv[nNR + k],
-                            Yu[nNR + k] + 1j * Yv[nNR + k],
-                            np.sqrt(varX) + 1j * np.sqrt(varY),
-                            np.sqrt(varY) + 1j * np.sqrt(varX),
+                            XYI[0] + 1j * XYI[2],
+                            XYI[1] + 1j * XYI[3],
+                            sigI[0] + 1j * sigI[2],
+                            sigI[1] + 1j * sigI[3],
                         )
                         coef.Lsmaj_ci[ind] = 1.96 * sig1.real
                         coef.Lsmin_ci[ind] = 1.96 * sig1.imag
-- 
2.43.0


From 1ae7c0e4f9bb9cf10a2c2be2e1e7cb58f280ec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 15/26] fix: approximate inference computed its correction but
 never applied it

---
 utide/_solve.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index a04c99a..da98f40 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -279,18 +279,22 @@ def _solv1(tin, uin, vin, lat, **opts):
 
         else:
             # Approximate inference.
-            Q = np.empty((coef.nR,), dtype=float)
-            beta = np.empty((coef.nR,), dtype=float)
+            # The inferred constituents are left out of the model; their effect on
+            # the reference coefficients, relative, is removed afterwards.
+            aprx_p = np.empty((coef.nR,), dtype=complex)
+            aprx_m = np.empty((coef.nR,), dtype=complex)
 
             for k, ref in enumerate(cnstit.R):
                 E = ut_E(t, tref, ref.frq, ref.lind, *E_args)[:, 0]
                 Etilp[:, k] = E
                 Etilm[:, k] = E
-                num = ut_E(tref, tref, ref.I.frq, ref.I.lind, *E_args).real
-                den = ut_E(tref, tref, ref.frq, ref.lind, *E_args).real
-                Q[k] = (num / den)[0, 0]
+                num = ut_E(tref, tref, ref.I.frq, ref.I.lind, *E_args)
+                den = ut_E(tref, tref, ref.frq, ref.lind, *E_args)
+                Q = (num / den)[0]
                 arg = np.pi * lor * 24 * (ref.I.frq - ref.frq) * (nt + 1) / nt
-                beta[k] = np.sin(arg) / arg
+                beta = np.sin(arg) / arg
+                aprx_p[k] = 1 + (beta * ref.I.Rp * Q).sum()
+                aprx_m[k] = 1 + (beta * ref.I.Rm * np.conj(Q)).sum()
 
         B = np.hstack((B, Etilp, np.conj(Etilm)))
 
@@ -337,6 +341,10 @@ def _solv1(tin, uin, vin, lat, **opts):
     i0 = 2 * nNR + nR
     am = np.hstack((m[nNR : 2 * nNR], m[i0 : i0 + nR]))
 
+    if opt.infer is not None and opt.infer.approximate:
+        ap[nNR:] /= aprx_p
+        am[nNR:] /= aprx_m
+
     Xu = np.real(ap + am)
     Yu = -np.imag(ap - am)
 
-- 
2.43.0


From 68dea906be8b025da36ab426b95ff761c996bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:21 +0000
Subject: [PATCH 16/26] fix: Bunch.from_pyfile altered multi-line strings

---
 utide/utilities.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/utide/utilities.py b/utide/utilities.py
index 342df93..38be472 100644
--- a/utide/utilities.py
+++ b/utide/utilities.py
@@ -1,3 +1,4 @@
+import ast
 import warnings
 
 import numpy as np
@@ -106,20 +107,14 @@ class Bunch(dict):
         # We can't simply exec the code directly, because in
         # Python 3 the scoping for list comprehensions would
         # lead to a NameError.  Wrapping the code in a function
-        # fixes this.
+        # fixes this.  It is wrapped after parsing, because indenting
+        # the text would alter multi-line strings.
         d = {}
-        lines = ["def _temp_func():\n"]
         with open(filename) as f:
-            lines.extend(["    " + line for line in f])
-        lines.extend(
-            [
-                "\n    return(locals())\n",
-                "_temp_out = _temp_func()\n",
-                "del(_temp_func)\n",
-            ],
-        )
-        codetext = "".join(lines)
-        code = compile(codetext, filename, "exec")
+            body = ast.parse(f.read(), filename).body
+        tree = ast.parse("def _temp_func():\n    return locals()\n_temp_out = _temp_func()\n")
+        tree.body[0].body[:0] = body
+        code = compile(tree, filename, "exec")
         exec(code, globals(), d)
         self.update(d["_temp_out"])
         return self
-- 
2.43.0


From 5aad9ca02f42539bd6f46c6049bfdcdcf8ceceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 17/26] fix: hasattr(bunch, 't_mpl') raised KeyError

---
 utide/utilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utide/utilities.py b/utide/utilities.py
index 38be472..33947b9 100644
--- a/utide/utilities.py
+++ b/utide/utilities.py
@@ -169,7 +169,10 @@ class Bunch(dict):
             category=FutureWarning,
             stacklevel=2,
         )
-        return self["t_mpl"]
+        try:
+            return self["t_mpl"]
+        except KeyError as err:
+            raise AttributeError("'Bunch' object has no attribute 't_mpl'") from err
 
 
 # The following functions ending with loadbunch() and showmatbunch()
-- 
2.43.0


From 64d24cfe52033f3955dbd22d69f5db4871ad2884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 18/26] fix: centre complex residuals in both components when
 scaling robust weights

np.median of complex values orders them by their real parts, so the
imaginary part of the centre was that of one sample. If that sample was an
outlier in v, the scale exploded and all outliers got full weight.
---
 utide/robustfit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index a59d0ac..497beaa 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -91,7 +91,12 @@ def sigma_hat(x):
     Robust estimate of standard deviation based on medians.
     """
     # The center could be based on the mean or some other function.
-    return np.median(np.abs(x - np.median(x))) / 0.6745
+    center = np.median(np.real(x))
+    if np.iscomplexobj(x):
+        # The median of complex values is that of their real parts: its
+        # imaginary part belongs to a single sample, possibly an outlier.
+        center = center + 1j * np.median(np.imag(x))
+    return np.median(np.abs(x - center)) / 0.6745
 
 
 def leverage(x):
-- 
2.43.0


From dcac8d4874c2ebaff4a67e012c5673dd3f082881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 19/26] fix: measure the robust residual scale from zero

The weights compare residuals themselves with a scale that was taken about
their median. When outliers shift the first fit, that scale is too small for
the shifted residuals: hard-rejecting functions then rejected good samples,
or all of them, which raised IndexError.
---
 utide/robustfit.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index 497beaa..de73ef1 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -88,15 +88,12 @@ tune_defaults = {
 
 def sigma_hat(x):
     """
-    Robust estimate of standard deviation based on medians.
+    Robust estimate of standard deviation based on the median.
+
+    The deviations are taken from zero, not from the median of `x`: `x` are
+    residuals, to be compared with the result as they are.
     """
-    # The center could be based on the mean or some other function.
-    center = np.median(np.real(x))
-    if np.iscomplexobj(x):
-        # The median of complex values is that of their real parts: its
-        # imaginary part belongs to a single sample, possibly an outlier.
-        center = center + 1j * np.median(np.imag(x))
-    return np.median(np.abs(x - center)) / 0.6745
+    return np.median(np.abs(x)) / 0.6745
 
 
 def leverage(x):
-- 
2.43.0


From b3e5b23da5dc6fbc828ddd6852a9cfd2f68e5233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 20/26] fix: refuse unknown values of method, phase and nodal

A misspelt value was taken for another choice without notice: any method
but 'ols' for 'robust', any phase for 'Greenwich', any nodal for True.
---
 utide/_solve.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index da98f40..13aa8c9 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -74,11 +74,16 @@ def _translate_opts(opts):
         oldopts["nodsatlint"] = True
     elif not opts.nodal:
         oldopts["nodsatnone"] = True
+    elif isinstance(opts.nodal, str):
+        raise ValueError("'nodal' must be True, False, or 'linear_time'")
     if opts.phase == "linear_time":
         oldopts["gwchlint"] = True
     elif opts.phase == "raw":
         oldopts["gwchnone"] = True
-    # Otherwise it should be default, 'Greenwich.'
+    elif opts.phase != "Greenwich":
+        raise ValueError("'phase' must be 'Greenwich', 'linear_time', or 'raw'")
+    if opts.method not in ("ols", "robust"):
+        raise ValueError("'method' must be 'ols' or 'robust'")
     oldopts.rmin = opts.Rayleigh_min
     oldopts.white = opts.white
     oldopts.newopts = opts  # So we can access new opts via the single "opt."
-- 
2.43.0


From 4192f556da901c50f2cdfc8b1780b747085bb0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 21/26] fix: robustfit reported residuals and weights of
 another iteration, and failed on a vector regressor

---
 utide/robustfit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index de73ef1..96a0d1a 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -174,7 +174,7 @@ def robustfit(
     _wfunc = wfuncdict[weight_function]
 
     if X.ndim == 1:
-        X = X.reshape((x.size, 1))
+        X = X.reshape((X.size, 1))
     n, p = X.shape
 
     lev = leverage(X)
@@ -245,7 +245,9 @@ def robustfit(
 
     if iterations == 0:
         iterations = maxit  # Did not converge.
+        w = oldw  # The last update was not used for the solution.
 
+    resid = y - np.dot(X, b)
     rms_resid = np.sqrt(np.mean(np.abs(resid) ** 2))
 
     out.update(
-- 
2.43.0


From 9ff4ea6f9b6ea57331ce66992d80ed6628fc5837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:35 +0000
Subject: [PATCH 22/26] fix: refuse a record without any valid sample instead
 of returning zeros

---
 utide/_solve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 13aa8c9..831f33b 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -529,6 +529,9 @@ def _slvinit(tin, uin, vin, lat, **opts):
         if vin is not None:
             v = vin.filled()
 
+    if len(t) == 0:
+        raise ValueError("No valid data: all values or times are missing")
+
     # Now t, u, v, tin are clean ndarrays; uin and vin are masked,
     # but don't necessarily have masked values.
 
-- 
2.43.0


From 5a9eb151b9ecef04d20afc71fe990a317b4dcb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:45 +0000
Subject: [PATCH 23/26] fix: sign of the u-v covariance in coloured Monte Carlo
 intervals

---
 utide/confidence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index ecf5b95..f6c55a5 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -323,7 +323,9 @@ def _confidence(
 
                 if not opt.white:
                     if np.abs(Duv).sum() > 0:
-                        Duv = Puv[c] * Duv / np.abs(Duv).sum()
+                        # The sign is that of the co-spectrum near the constituent.
+                        norm = np.copysign(np.abs(Duv).sum(), np.trace(Duv))
+                        Duv = Puv[c] * Duv / norm
                         varcov_mCc[c, :2, 2:] = Duv
                         varcov_mCc[c, 2:, :2] = Duv.T
                     else:
-- 
2.43.0


From 297256cbd03cdf66bbc9011668f130e440c8c135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:17 +0000
Subject: [PATCH 24/26] fix: coloured intervals of a record that is not in the
 order of time

---
 utide/confidence.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utide/confidence.py b/utide/confidence.py
index f6c55a5..d8cf30b 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -17,6 +17,10 @@ from utide.utilities import complex_interp
 
 def band_averaged_psd_by_constit(tin, t, e, elor, coef, opt):
     # Band-averaged (ba) spectral densities at each constituent freq.
+    # The spectral estimates need the samples in the order of time.
+    order = np.argsort(t, kind="stable")
+    t, e = t[order], e[order]
+    tin = np.sort(tin)
     constits = coef.aux.frq
     if opt.equi:
         e_ = e
-- 
2.43.0


From 8d49cb3e1ef3398ee5fe826fa90b55a0197b5be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:49 +0000
Subject: [PATCH 25/26] fix: pseudo-covariance for inference in a current with
 different ratios for the two rotating components

---
 utide/confidence.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index d8cf30b..6dca48f 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -198,10 +198,16 @@ def _confidence(
     varMSM = np.real(np.dot(resid.conj(), _Wr)) / (nt - nm)
 
     # Gamma_C: covariance Eq. 54.
-    gamC = np.linalg.inv(np.dot(B.conj().T, _WB)) * varMSM
+    BWB_inv = np.linalg.inv(np.dot(B.conj().T, _WB))
+    gamC = BWB_inv * varMSM
 
     # Gamma_P: pseudo-covariance Eq. 54.
-    gamP = np.linalg.inv(np.dot(B.T, _WB))
+    if opt.twodim and opt.infer:
+        # Eq. 54 needs columns of B in conjugate pairs; here those of the references
+        # are not, if the ratios for the two rotating components are different.
+        gamP = np.dot(np.dot(BWB_inv, np.dot(B.conj().T, _WB.conj())), BWB_inv.T)
+    else:
+        gamP = np.linalg.inv(np.dot(B.T, _WB))
     gamP *= np.dot(resid, _Wr) / (nt - nm)
 
     del _Wr, _WB
-- 
2.43.0


From 762a3d0544d9b21886812bb77ae11d3ce3a81fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:41 +0000
Subject: [PATCH 26/26] fix: accept constituent names in any sequence type

constit and order_constit given as an array (for instance the name array
of another solution) or an index raised 'truth value is ambiguous'.
---
 utide/_solve.py                | 2 +-
 utide/constituent_selection.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index 831f33b..30117c8 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -119,7 +119,7 @@ def validate_order_constit(arg, have_snr):
     if isinstance(arg, str) and arg in available:
         return arg
     if not isinstance(arg, str) and np.iterable(arg):
-        return arg  # TODO: add checking of its elements
+        return list(arg)  # TODO: add checking of its elements
     raise ValueError(
         f"order_constit must be one of {available} or"
         f" a sequence of constituents, not '{arg}'",
diff --git a/utide/constituent_selection.py b/utide/constituent_selection.py
index e18160d..2df30fa 100644
--- a/utide/constituent_selection.py
+++ b/utide/constituent_selection.py
@@ -42,7 +42,7 @@ def ut_cnstitsel(tref, minres, incnstit, infer):
     cnstit["NR"] = Bunch()
 
     # if incnstit.lower() == 'auto':
-    if incnstit == "auto":
+    if isinstance(incnstit, str) and incnstit == "auto":
         cnstit.NR.lind = np.where(const.df >= minres)[0]
     else:
         cnstit.NR.lind = [constit_index_dict[n] for n in incnstit]
-- 
2.43.0

