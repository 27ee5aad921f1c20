From e2332044186e7e284adf43de05d7cf3c38d97013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:46 +0000
Subject: [PATCH 01/38] fix: sparse ECORR returns a fresh matrix, so cached
 values are not overwritten

---
 enterprise/signals/white_signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index f963fee..71708b9 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -264,11 +264,13 @@ def EcorrKernelNoise(
             self._Ns = signal_base.csc_matrix_alt(Ns)
 
         def _get_ndiag_sparse(self, params):
+            # work on a copy, because the returned matrix is cached by get_ndiag
+            Ns = self._Ns.copy()
             for p in self._params:
                 for idx in self._idxs[p]:
                     if len(idx) > 1:
-                        self._Ns[np.ix_(idx, idx)] = 10 ** (2 * self.get(p, params))
-            return self._Ns
+                        Ns[np.ix_(idx, idx)] = 10 ** (2 * self.get(p, params))
+            return Ns
 
         def _get_ndiag_sherman_morrison(self, params):
             slices, jvec = self._get_jvecs(params)
-- 
2.43.0


From 95532574145e3eece333de994b15396afce1d15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:46 +0000
Subject: [PATCH 02/38] fix: PhysicalEphemerisSignal returns a fresh delay, so
 cached values are not overwritten

---
 enterprise/signals/deterministic_signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/deterministic_signals.py b/enterprise/signals/deterministic_signals.py
index d0ee0db..8a0a577 100644
--- a/enterprise/signals/deterministic_signals.py
+++ b/enterprise/signals/deterministic_signals.py
@@ -199,9 +199,11 @@ def PhysicalEphemerisSignal(
             if use_epoch_toas:
                 delay = self._wf[""](toas=self._avetoas, planetssb=self._planetssb, pos_t=self._pos_t, params=params)
 
+                # do not reuse an array here, because the returned delay is cached
+                ret = np.zeros_like(self._delay)
                 for slc, val in zip(self._uinds, delay):
-                    self._delay[slc] = val
-                return self._delay
+                    ret[slc] = val
+                return ret
             else:
                 delay = self._wf[""](params=params)
                 return delay
-- 
2.43.0


From eb06fb7b35a549134a2c89072477159718aadfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:46 +0000
Subject: [PATCH 03/38] fix: delay cache keys of coefficient GPs include every
 coefficient and basis parameter

---
 enterprise/signals/gp_signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index a504a41..f73f479 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -135,7 +135,8 @@ def BasisGP(
             # MV: could assign this to a data member at initialization
             @property
             def delay_params(self):
-                return [pp.name for pp in self.params if "_coefficients" in pp.name]
+                coeffs = self._coefficients.values()
+                return [pp.name for pp in self.params if any(pp is c for c in coeffs)] + self.basis_params
 
             @signal_base.cache_call(["basis_params", "delay_params"])
             def get_delay(self, params={}):
@@ -357,7 +358,8 @@ def BasisCommonGP(priorFunction, basisFunction, orfFunction, coefficients=False,
 
             @property
             def delay_params(self):
-                return [pp.name for pp in self.params if "_coefficients" in pp.name]
+                coeffs = self._coefficients.values()
+                return [pp.name for pp in self.params if any(pp is c for c in coeffs)] + self.basis_params
 
             @signal_base.cache_call(["basis_params", "delay_params"])
             def get_delay(self, params={}):
-- 
2.43.0


From 6b856163a4af62821eaa4dd77be5d8fb58d8d6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 04/38] fix: set_default_params clears cached quantities
 computed with the old constants

---
 enterprise/signals/signal_base.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index f6da48a..da8c251 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -62,6 +62,14 @@ def simplememobyid(method):
     return memoizedfunc
 
 
+def _clear_cache(obj):
+    """Drop everything that `cache_call` has saved in `obj`; needed when
+    something that does not appear in the cache keys changes."""
+
+    for attr in [attr for attr in vars(obj) if attr.startswith("_cache_")]:
+        delattr(obj, attr)
+
+
 class MetaSignal(type):
     """Metaclass for Signals. Allows addition of ``Signal`` classes."""
 
@@ -132,6 +140,9 @@ class Signal(object):
                     msg = "{} not set! Check parameter dict.".format(par.name)
                     logger.warning(msg)
 
+        # the values of constants are not included in the cache keys
+        _clear_cache(self)
+
     def get_ndiag(self, params):
         """Returns the diagonal of the white noise vector `N`.
 
@@ -874,6 +885,12 @@ def SignalCollection(metasignals):  # noqa: C901
             for signal in self._signals:
                 signal.set_default_params(params)
 
+            # the values of constants are not included in the cache keys,
+            # and they may change the columns that can be combined
+            _clear_cache(self)
+            for attr in ("_idx", "_Fmat"):
+                self.__dict__.pop(attr, None)
+
         def _combine_basis_columns(self, signals):
             """Given a set of Signal objects, each of which may return an
             Fmat (through get_basis()), return a dict (indexed by signal)
-- 
2.43.0


From b9d7b8fc9432939d44146974f2683c49f7c5a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 05/38] fix: column reuse with a varying basis maps columns to
 their own position

---
 enterprise/signals/signal_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index da8c251..9200dbe 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -931,6 +931,8 @@ def SignalCollection(metasignals):  # noqa: C901
                     elif signal.basis_params:
                         nf = Fmat.shape[1]
                         idx[signal] = list(range(cc, cc + nf))
+                        # keep hashlist aligned with the combined columns
+                        hashlist.extend([None] * nf)
                         cc += nf
 
             if not idx:
-- 
2.43.0


From b9dfeda9f441fa205a91e185ef6bf6b4642075bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 06/38] fix: repeated columns within one basis are not merged
 with each other

---
 enterprise/signals/signal_base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 9200dbe..b20db5c 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -914,13 +914,16 @@ def SignalCollection(metasignals):  # noqa: C901
                         for i, column in enumerate(Fmat.T):
                             colhash = hash(column.tobytes())
 
-                            if signal.basis_combine and colhash in hashlist:
+                            # look for the column among those that this signal
+                            # is not using already (its columns may repeat)
+                            seen = [j for j, h in enumerate(hashlist) if h == colhash and j not in idx[signal]]
+
+                            if signal.basis_combine and seen:
                                 # if we're combining the basis for this signal
                                 # and we have seen this column already, make a note
                                 # of where it was
 
-                                j = hashlist.index(colhash)
-                                idx[signal].append(j)
+                                idx[signal].append(seen[0])
                             else:
                                 # if we're not combining or we haven't seen it already
                                 # save the hash and make a note it's new
-- 
2.43.0


From 73336240991e8ab242bc4a68653f91126bdb0d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 07/38] fix: merge overlapping Phi cliques (np.in1d never
 matches a set)

---
 enterprise/signals/signal_base.py | 4 ++--
 enterprise/signals/utils.py       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index b20db5c..5a0c18d 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -601,7 +601,7 @@ class PTA(object):
                 # I don't think this code is ever exercised...
                 # if maxidx == -1, then allidx = [-1]
                 if len(allidx) > 1:
-                    self._cliques[np.in1d(self._cliques, allidx)] = self._clcount
+                    self._cliques[np.isin(self._cliques, list(allidx - {-1}))] = self._clcount
 
                 self._clcount = self._clcount + 1
             else:
@@ -613,7 +613,7 @@ class PTA(object):
                 # since cliques are "contagious", reassign all the other
                 # clique indices that we found to maxidx
                 if len(allidx) > 1:
-                    self._cliques[np.in1d(self._cliques, allidx)] = maxidx
+                    self._cliques[np.isin(self._cliques, list(allidx - {-1}))] = maxidx
 
     # add cliques from individual pulsar phis; these will never overlap
     # TO DO: at this point Phi could be defined as a smarter KernelMatrix!
diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 333368d..e4fbabd 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -250,7 +250,7 @@ class KernelMatrix(np.ndarray):
         else:
             self._cliques[idxs] = maxidx
             if len(allidx) > 1:
-                self._cliques[np.in1d(self._cliques, allidx)] = maxidx
+                self._cliques[np.isin(self._cliques, list(allidx - {-1}))] = maxidx
 
     def add(self, other, idx):
         if other.ndim == 2 and self.ndim == 1:
-- 
2.43.0


From a7e74b645d541be406c83be75627e0de88bed9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 08/38] fix: partition inverse counts the Phi diagonal once
 with multiple common signals

---
 enterprise/signals/signal_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 5a0c18d..27b92fc 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -476,7 +476,7 @@ class PTA(object):
             # the pulsars and share the same basis
             invert = None
 
-            for csclass, csdict in self._commonsignals.items():
+            for cscount, (csclass, csdict) in enumerate(self._commonsignals.items()):
                 for i, (cs1, csc1) in enumerate(csdict.items()):
                     for j, (cs2, csc2) in enumerate(csdict.items()):
                         if j <= i:
@@ -496,6 +496,10 @@ class PTA(object):
                         invert[:, i, j] += crossdiag
                         invert[:, j, i] += crossdiag
 
+                    # the full diagonal includes all signals, so count it only once
+                    if cscount > 0:
+                        continue
+
                     invert[:, i, i] += phidiag[slices[csc1]][csc1._idx[cs1]]
 
                     if logdet:
-- 
2.43.0


From 97751907fe890fe01572497e1edf336b342faacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 09/38] fix: partition inverse refuses models that it cannot
 handle, instead of returning a wrong matrix

---
 enterprise/signals/signal_base.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 27b92fc..d37e5fd 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -473,7 +473,25 @@ class PTA(object):
                     ld = np.sum(np.log(phidiag))
 
             # this will only work if all common signals are shared among all
-            # the pulsars and share the same basis
+            # the pulsars and share the same basis, and if no pulsar has a dense
+            # phi that involves the common basis
+            csidxs = [{csc: csc._idx[cs] for cs, csc in csdict.items()} for csdict in self._commonsignals.values()]
+            for csidx in csidxs:
+                if csidx.keys() != csidxs[0].keys() or any(
+                    not np.array_equal(idx, csidxs[0][csc]) for csc, idx in csidx.items()
+                ):
+                    raise NotImplementedError(
+                        "get_phiinv with method='partition' requires that all common signals "
+                        "share the same pulsars and the same basis."
+                    )
+
+            for sc, phivec in zip(self._signalcollections, phivecs):
+                if sc in csidxs[0] and phivec.ndim == 2:
+                    if np.any((phivec - np.diag(np.diag(phivec)))[csidxs[0][sc], :]):
+                        raise NotImplementedError(
+                            "get_phiinv with method='partition' does not support dense phi matrices."
+                        )
+
             invert = None
 
             for cscount, (csclass, csdict) in enumerate(self._commonsignals.items()):
-- 
2.43.0


From 5fad8ed7ec5b54ed74af77bf3ba66e39fa1167f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 10/38] fix: KernelMatrix sets only the diagonal when given a
 vector and a slice

---
 enterprise/signals/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index e4fbabd..10d904f 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -260,6 +260,7 @@ class KernelMatrix(np.ndarray):
             self[idx] += other
         else:
             if other.ndim == 1:
+                idx = np.arange(self.shape[0])[idx]
                 self[idx, idx] += other
             else:
                 self._setcliques(idx)
@@ -276,6 +277,7 @@ class KernelMatrix(np.ndarray):
             self[idx] = other
         else:
             if other.ndim == 1:
+                idx = np.arange(self.shape[0])[idx]
                 self[idx, idx] = other
             else:
                 self._setcliques(idx)
-- 
2.43.0


From 42202a620dff2893551b192a636f1e1f00abadf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 11/38] fix: BlockMatrix.solve returns products with the shape
 of its arguments

---
 enterprise/signals/signal_base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index d37e5fd..4473ca7 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1227,7 +1227,7 @@ class BlockMatrix(object):
                 bx = Xblock / self._nvec[idx][:, None]
             ZNX += np.dot(Zblock.T, bx)
         ZNX += ZNXr
-        return ZNX.squeeze() if len(ZNX) > 1 else float(ZNX)
+        return ZNX
 
     def _solve_NX(self, X):
         """Solves :math:`N^{-1}X`, where :math:`X`
@@ -1242,7 +1242,7 @@ class BlockMatrix(object):
             if len(idx) > 1:
                 cf = sl.cho_factor(block + np.diag(self._nvec[idx]))
                 NX[idx] = sl.cho_solve(cf, Xblock)
-        return NX.squeeze()
+        return NX
 
     def _get_logdet(self):
         """Returns log determinant of :math:`N+UJU^{T}` where :math:`U`
@@ -1269,9 +1269,12 @@ class BlockMatrix(object):
                 raise TypeError
 
         if left_array is not None:
-            ret = self._solve_ZNX(other, left_array)
+            # same shape as np.dot(left_array.T, other)
+            shape = left_array.shape[1:] + other.shape[1:]
+            ret = self._solve_ZNX(other, left_array).reshape(shape)
+            ret = ret if shape else float(ret)
         else:
-            ret = self._solve_NX(other)
+            ret = self._solve_NX(other).reshape(other.shape)
 
         return (ret, self._get_logdet()) if logdet else ret
 
-- 
2.43.0


From c1a7e6f80dca67471d5369160015e535e942932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 12/38] fix: ECORR kernels support data sets without multi-TOA
 epochs

---
 enterprise/signals/signal_base.py   | 4 ++--
 enterprise/signals/white_signals.py | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 4473ca7..0445d49 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1186,9 +1186,9 @@ class BlockMatrix(object):
 
         if np.any(nvec != 0):
             s1 = set(np.arange(len(nvec)))
-            s2 = set(np.concatenate([np.arange(len(nvec))[slc] for slc in slices]))
+            s2 = set(i for slc in slices for i in np.arange(len(nvec))[slc])
             sd = s1.difference(s2)
-            self._idx = np.array([s for s in sd])
+            self._idx = np.array([s for s in sd], dtype=int)
 
     def __add__(self, other):
         nvec = self._nvec + other
diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index 71708b9..b8da534 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -278,6 +278,9 @@ def EcorrKernelNoise(
 
         def _get_ndiag_fast_sherman_morrison(self, params):
             slices, jvec = self._get_jvecs(params)
+            if len(slices) == 0:
+                # fastshermanmorrison needs at least one epoch
+                return signal_base.ShermanMorrison(jvec, slices)
             return fastshermanmorrison.FastShermanMorrison(jvec, slices)
 
         def _get_ndiag_block(self, params):
-- 
2.43.0


From c089fb7a03c0e480b79647be702b3433e609645a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 13/38] fix: likelihood with common signals skips pulsars
 without GPs

---
 enterprise/signals/signal_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 0445d49..f8d00de 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -195,6 +195,8 @@ class LogLikelihood(object):
 
     @simplememobyid
     def _block_TNT(self, TNTs):
+        # pulsars without GPs do not contribute
+        TNTs = [TNT for TNT in TNTs if TNT is not None]
         if self.cholesky_sparse:
             return sps.block_diag(TNTs, "csc")
         else:
@@ -202,7 +204,7 @@ class LogLikelihood(object):
 
     @simplememobyid
     def _block_TNr(self, TNrs):
-        return np.concatenate(TNrs)
+        return np.concatenate([TNr for TNr in TNrs if TNr is not None])
 
     def __call__(self, xs, phiinv_method="cliques"):
         # map parameter vector if needed
-- 
2.43.0


From f826d1eca89d10f323f2b80dd537e307c1777296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 14/38] fix: get_coefficients assigns coefficients of
 uncorrelated common signals

---
 enterprise/signals/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 10d904f..622cda4 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -207,7 +207,7 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
                 pardict, ntot = {}, 0
                 for sig in model._signals:
-                    if sig.signal_type == "basis":
+                    if sig.signal_type in ["basis", "common basis"]:
                         nb = sig.get_basis(params=params).shape[1]
 
                         if nb + ntot > len(b):
-- 
2.43.0


From b3995281fc47a43e0de654980c7aedd1f251539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 15/38] fix: get_coefficients undoes the sparse Cholesky
 permutation in random draws

---
 enterprise/signals/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 622cda4..ddeb969 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -153,7 +153,8 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
             ch = cholesky(Sigma)
             mn = ch(TNr)
-            Li = sps.linalg.inv(ch.L()).toarray().T
+            # Sigma = P^T L L^T P for a permutation P
+            Li = ch.apply_Pt(sps.linalg.inv(ch.L()).toarray().T)
         else:
             Sigma = sl.block_diag(*TNTs) + phiinvs
             TNr = np.concatenate(TNrs)
-- 
2.43.0


From 235d2d9491c8f6615277db61380a2c74630e184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 16/38] fix: Fourier basis accepts modes given as a list, as
 documented

---
 enterprise/signals/gp_bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_bases.py b/enterprise/signals/gp_bases.py
index f924be1..bff45b1 100644
--- a/enterprise/signals/gp_bases.py
+++ b/enterprise/signals/gp_bases.py
@@ -49,7 +49,7 @@ def createfourierdesignmatrix_red(
     # define sampling frequencies
     if modes is not None:
         nmodes = len(modes)
-        f = modes
+        f = np.asarray(modes)
     elif fmin is None and fmax is None and not logf:
         # make sure partially overlapping sets of modes
         # have identical frequencies
-- 
2.43.0


From b70a18f90adfa6ea4f2d4c47d9b7e4d9d6594017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 17/38] fix: waveform functions do not modify array arguments

---
 enterprise/signals/utils.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index ddeb969..e3f54fb 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -370,7 +370,7 @@ def get_edot(F, mc, e):
     """
 
     # chirp mass
-    mc *= const.Tsun
+    mc = mc * const.Tsun
 
     dedt = -304 / (15 * mc) * (2 * np.pi * mc * F) ** (8 / 3) * e * (1 + 121 / 304 * e**2) / ((1 - e**2) ** (5 / 2))
 
@@ -389,7 +389,7 @@ def get_Fdot(F, mc, e):
     """
 
     # chirp mass
-    mc *= const.Tsun
+    mc = mc * const.Tsun
 
     dFdt = (
         48
@@ -415,7 +415,7 @@ def get_gammadot(F, mc, q, e):
     """
 
     # chirp mass
-    mc *= const.Tsun
+    mc = mc * const.Tsun
 
     # total mass
     m = (((1 + q) ** 2) / q) ** (3 / 5) * mc
@@ -553,8 +553,8 @@ def get_an(n, mc, dl, h0, F, e):
     """
 
     # convert to seconds
-    mc *= const.Tsun
-    dl *= const.Mpc / const.c
+    mc = mc * const.Tsun
+    dl = dl * const.Mpc / const.c
 
     omega = 2 * np.pi * F
 
@@ -588,8 +588,8 @@ def get_bn(n, mc, dl, h0, F, e):
     """
 
     # convert to seconds
-    mc *= const.Tsun
-    dl *= const.Mpc / const.c
+    mc = mc * const.Tsun
+    dl = dl * const.Mpc / const.c
 
     omega = 2 * np.pi * F
 
@@ -617,8 +617,8 @@ def get_cn(n, mc, dl, h0, F, e):
     """
 
     # convert to seconds
-    mc *= const.Tsun
-    dl *= const.Mpc / const.c
+    mc = mc * const.Tsun
+    dl = dl * const.Mpc / const.c
 
     omega = 2 * np.pi * F
 
@@ -741,7 +741,7 @@ def bwm_delay(toas, pos, log10_h=-14.0, cos_gwtheta=0.0, gwphi=0.0, gwpol=0.0, t
     # convert
     h = 10**log10_h
     gwtheta = np.arccos(cos_gwtheta)
-    t0 *= const.day
+    t0 = t0 * const.day
 
     # antenna patterns
     if antenna_pattern_fn is None:
-- 
2.43.0


From 9401db87a7149cb2135e80dc99082049fa31b490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 18/38] fix: sample() draws every (hyper)parameter once

---
 enterprise/signals/parameter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 065f7f2..a846061 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -28,10 +28,9 @@ def _sample(parlist, parvalues):
     """Recursive function used by sample()."""
 
     for par in parlist:
-        if par not in parvalues:
-            # RvH: Hyper pars seem to be broken
+        if par.name not in parvalues:
             # sample hyperpars for this par, skip parameter itself
-            parvalues.update(sample(par.params[1:]))
+            _sample(par.params[1:], parvalues)
 
             parvalues[par.name] = par.sample(params=parvalues)
 
-- 
2.43.0


From 1438a8056b15122a9f85e25acc1648f9a0ab046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 19/38] fix: hypercube transform evaluates hierarchical priors
 at transformed hyperparameters

---
 enterprise/signals/signal_base.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index f8d00de..6f33761 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -731,7 +731,18 @@ class PTA(object):
         # map parameter vector if needed
         params = params if isinstance(params, dict) else self.map_params(params)
 
-        return np.hstack([p.get_ppf(params=params) for p in self.params])
+        # hyperparameters must be transformed before the parameters they control
+        ret = {}
+
+        def transform(par):
+            if par.name not in ret:
+                for hyperpar in par.params[1:]:
+                    transform(hyperpar)
+                ret[par.name] = par.get_ppf(value=params[par.name], params=dict(params, **ret))
+
+            return ret[par.name]
+
+        return np.hstack([transform(p) for p in self.params])
 
     def _set_signal_dict(self):
         """Set signal dictionary"""
-- 
2.43.0


From 2e66ba22a687d7c2a0c4551e3631683dc1ba13e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 20/38] fix: pulsar attributes are passed by name to Function
 arguments

---
 enterprise/signals/selections.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/selections.py b/enterprise/signals/selections.py
index 0b4f1e7..ea6d932 100644
--- a/enterprise/signals/selections.py
+++ b/enterprise/signals/selections.py
@@ -38,10 +38,11 @@ def selection_func(func):
             for funcarg in funcargs[len(args) :]:
                 if funcarg not in kwargs and hasattr(psr, funcarg):
                     attr = call_me_maybe(getattr(psr, funcarg))
+                    # pass by name, since earlier arguments may be left to their defaults
                     if isinstance(attr, np.ndarray) and getattr(mask, "shape", [0])[0] == len(attr):
-                        targs.append(attr[mask])
+                        kwargs[funcarg] = attr[mask]
                     else:
-                        targs.append(attr)
+                        kwargs[funcarg] = attr
 
         if "psr" in kwargs and "psr" not in funcargs:
             del kwargs["psr"]
-- 
2.43.0


From 48a64c0ca6fa58c7ef2f9be1dfff9cd1ea174639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 21/38] fix: BasisGP.get_phi returns a fresh matrix, so earlier
 results are not overwritten

---
 enterprise/signals/gp_signals.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index f73f479..24041a0 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -102,9 +102,6 @@ def BasisGP(
             nc = sum(F.shape[1] for F in basis.values())
             self._basis = np.zeros((len(self._masks[0]), nc))
 
-            # TODO: should this be defined here? it will cache phi
-            self._phi = KernelMatrix(nc)
-
             self._slices = {}
             nctot = 0
             for key, mask in zip(self._keys, self._masks):
@@ -175,10 +172,13 @@ def BasisGP(
             def get_phi(self, params):
                 self._construct_basis(params)
 
+                # do not reuse an array here, because the caller may keep it
+                phi = KernelMatrix(self._basis.shape[1])
+
                 for key, slc in self._slices.items():
                     phislc = self._prior[key](self._labels[key], params=params)
-                    self._phi = self._phi.set(phislc, slc)
-                return self._phi
+                    phi = phi.set(phislc, slc)
+                return phi
 
             def get_phiinv(self, params):
                 return self.get_phi(params).inv()
-- 
2.43.0


From bc5b4196ca33308d59015335fa40be782930d65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 22/38] fix: filter_data slices every per-TOA array, and keeps
 fitpars in step with the design matrix

---
 enterprise/pulsar.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index ffac41a..820e8e5 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -137,19 +137,34 @@ class BasePulsar(object):
 
     def filter_data(self, start_time=None, end_time=None):
         """Filter data to create a time-slice of overall dataset."""
-        if start_time is None and end_time is None:
-            mask = np.ones(self._toas.shape, dtype=bool)
-        else:
-            mask = np.logical_and(self._toas >= start_time * 86400, self._toas <= end_time * 86400)
-
-        self._toas = self._toas[mask]
-        self._toaerrs = self._toaerrs[mask]
-        self._residuals = self._residuals[mask]
-        self._ssbfreqs = self._ssbfreqs[mask]
-
+        mask = np.ones(self._toas.shape, dtype=bool)
+        if start_time is not None:
+            mask = np.logical_and(mask, self._toas >= start_time * 86400)
+        if end_time is not None:
+            mask = np.logical_and(mask, self._toas <= end_time * 86400)
+
+        # all of these are stored unsorted, with one row per TOA
+        for attr in [
+            "_toas",
+            "_stoas",
+            "_toaerrs",
+            "_residuals",
+            "_ssbfreqs",
+            "_telescope",
+            "_pos_t",
+            "_planetssb",
+            "_sunssb",
+        ]:
+            if getattr(self, attr, None) is not None:
+                setattr(self, attr, getattr(self, attr)[mask])
+
+        # drop the parameters that are not constrained by the remaining TOAs
         self._designmatrix = self._designmatrix[mask, :]
-        dmx_mask = np.sum(self._designmatrix, axis=0) != 0.0
+        dmx_mask = np.any(self._designmatrix != 0.0, axis=0)
         self._designmatrix = self._designmatrix[:, dmx_mask]
+        for attr in ["fitpars", "designmatrix_units"]:
+            if hasattr(self, attr):
+                setattr(self, attr, [val for val, keep in zip(getattr(self, attr), dmx_mask) if keep])
 
         if isinstance(self._flags, np.ndarray):
             self._flags = self._flags[mask]
@@ -157,9 +172,6 @@ class BasePulsar(object):
             for key in self._flags:
                 self._flags[key] = self._flags[key][mask]
 
-        if self._planetssb is not None:
-            self._planetssb = self.planetssb[mask, :, :]
-
         self.sort_data()
 
     def to_feather(self, filename, noisedict=None):
-- 
2.43.0


From 089f4ba12878365716c2fe272e516f7ee487d3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 23/38] fix: backend_flags does not truncate fe_be labels

---
 enterprise/pulsar.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 820e8e5..166e762 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -284,14 +284,22 @@ class BasePulsar(object):
         # collect flag names
         flagnames = self._flags.dtype.names if isinstance(self._flags, np.ndarray) else list(self._flags.keys())
 
+        dtypes = [self._flags[name].dtype for name in flagnames]
+
+        if "fe" in flagnames and "be" in flagnames:
+            febe = np.array(
+                [(a + "_" + b if (a and b) else "") for a, b in zip(self._flags["fe"], self._flags["be"])], dtype=str
+            )
+            dtypes.append(febe.dtype)
+
         # allocate array with widest dtype
-        ret = np.zeros(len(self._toas), dtype=max([self._flags[name].dtype for name in flagnames]))
+        ret = np.zeros(len(self._toas), dtype=max(dtypes))
 
         # go through the flags in reverse order of preference
         # setting or replacing values for each TOA
 
         if "fe" in flagnames and "be" in flagnames:
-            ret[:] = [(a + "_" + b if (a and b) else "") for a, b in zip(self._flags["fe"], self._flags["be"])]
+            ret[:] = febe
 
         for flag in ["f", "i", "sys", "g", "group"]:
             if flag in flagnames:
-- 
2.43.0


From e1536b2c90cdf648eaa4dca08b45909d805b4eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 24/38] fix: pulsars can be saved to feather files again

---
 enterprise/pulsar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 166e762..93d43cb 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -736,7 +736,7 @@ class FeatherPulsar:
         meta = json.loads(f.schema.metadata[b"json"])
         for attr in FeatherPulsar.metadata:
             if attr in meta:
-                setattr(self, attr, meta[attr])
+                setattr(self, attr, np.array(meta[attr]) if attr == "pos" else meta[attr])
             else:
                 print(f"Pulsar.read_feather: cannot find {attr} in feather file {filename}.")
 
@@ -751,7 +751,8 @@ class FeatherPulsar:
         return a.tolist() if isinstance(a, np.ndarray) else a
 
     def save_feather(self, filename, noisedict=None):
-        self._toas = self._toas.astype(float)
+        if hasattr(self, "_toas"):
+            self._toas = self._toas.astype(float)
         pydict = {array: getattr(self, array) for array in FeatherPulsar.columns}
 
         pydict.update(
@@ -774,9 +775,9 @@ class FeatherPulsar:
         pydict.update({f"flags_{flag}": self.flags[flag] for flag in self.flags})
 
         meta = {}
-        for attr in Pulsar.metadata:
+        for attr in FeatherPulsar.metadata:
             if hasattr(self, attr):
-                meta[attr] = Pulsar.to_list(getattr(self, attr))
+                meta[attr] = FeatherPulsar.to_list(getattr(self, attr))
             else:
                 print(f"Pulsar.save_feather: cannot find {attr} in Pulsar {self.name}.")
 
-- 
2.43.0


From d2462f3ee3bffd1f2e96dc2217b768895ce2dae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 25/38] fix: sparse likelihood returns -inf when Sigma is not
 positive definite

CHOLMOD's simplicial LDL^T decomposition succeeds for indefinite matrices, and the
log-determinant (and so the likelihood) was NaN instead of -inf.
---
 enterprise/signals/signal_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 6f33761..851f2ff 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -247,6 +247,10 @@ class LogLikelihood(object):
                     logdet_sigma = self.cf_sp.logdet()
                 except CholmodError:  # pragma: no cover
                     return -np.inf
+
+                # the LDL^T decomposition does not fail for indefinite matrices
+                if np.isnan(logdet_sigma):
+                    return -np.inf
             else:
                 try:
                     cf = sl.cho_factor(TNT + phiinv)  # cf(Sigma)
-- 
2.43.0


From 106861d24956befccd77039d656ec81662d3299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 26/38] fix: partition phiinv without logdet for models with
 dense phi

KernelMatrix.inv(logdet=False) returns the inverse itself, so that phi[0] was its first row.
---
 enterprise/signals/signal_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 851f2ff..86571cc 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -466,7 +466,7 @@ class PTA(object):
             # TODO: This is messy, maybe we should clean up
             phis = [phivec for phivec in phivecs if phivec is not None]
             if np.any([phivec.ndim == 2 for phivec in phis]):
-                phiinvs = [phivec.inv(logdet) for phivec in phis]
+                phiinvs = [phivec.inv(logdet=True) for phivec in phis]
                 phiinv_full = [np.diag(phi[0]) if phi[0].ndim == 1 else phi[0] for phi in phiinvs]
                 phiinv = sl.block_diag(*phiinv_full)
                 if logdet:
-- 
2.43.0


From babf802c13d787ff9f502138283199c167bc3d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 27/38] fix: marginalizing timing model can follow ECORR in a
 signal collection

ShermanMorrison and BlockMatrix objects added the MarginalizingNmat object to their own diagonal
instead of being wrapped by it, and could not be solved.
---
 enterprise/signals/signal_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 86571cc..0c9bef3 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -994,7 +994,9 @@ def SignalCollection(metasignals):  # noqa: C901
         @cache_call("white_params")
         def get_ndiag(self, params):
             ndiags = [signal.get_ndiag(params) for signal in self._signals]
-            return sum(ndiag for ndiag in ndiags if ndiag is not None)
+            ndiags = [ndiag for ndiag in ndiags if ndiag is not None]
+            # a marginalized timing model wraps all other terms, so it must come first
+            return sum(sorted(ndiags, key=lambda ndiag: not hasattr(ndiag, "Nmat")))
 
         @cache_call("delay_params")
         def get_delay(self, params):
-- 
2.43.0


From e06dff0310cabb0fb08ecc53da7b42573b78f888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 28/38] fix: backend_flags with no flags, or with flags that
 are not strings

---
 enterprise/pulsar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 93d43cb..451bd13 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -284,7 +284,9 @@ class BasePulsar(object):
         # collect flag names
         flagnames = self._flags.dtype.names if isinstance(self._flags, np.ndarray) else list(self._flags.keys())
 
-        dtypes = [self._flags[name].dtype for name in flagnames]
+        # only the flags used below matter (others may be missing, or not be strings)
+        dtypes = [np.dtype("U1")]
+        dtypes.extend(self._flags[name].dtype for name in ["f", "i", "sys", "g", "group"] if name in flagnames)
 
         if "fe" in flagnames and "be" in flagnames:
             febe = np.array(
-- 
2.43.0


From a90b801c8907d983ec099f86af83b110f486d137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:47 +0000
Subject: [PATCH 29/38] fix: inflating a pulsar does not unlink its shared
 memory at process exit

---
 enterprise/pulsar_inflate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enterprise/pulsar_inflate.py b/enterprise/pulsar_inflate.py
index fda5fc6..dba5cfe 100644
--- a/enterprise/pulsar_inflate.py
+++ b/enterprise/pulsar_inflate.py
@@ -50,6 +50,10 @@ class PulsarInflater:
     def inflate(self):
         shm = shared_memory.SharedMemory(self.shmname)
 
+        # attaching registers the segment too: without this, the first user process
+        # to exit would unlink it for everyone else
+        resource_tracker.unregister(shm._name, "shared_memory")
+
         c = np.ndarray(self.shape, dtype=self.dtype, buffer=shm.buf).view(memmap)
         c.shm = shm
 
-- 
2.43.0


From d100cdf1ad891d14fe57aadd28d9d8193f40d29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 30/38] fix: conditional GPs with pulsars without GPs, or GPs
 with explicit coefficients

---
 enterprise/signals/utils.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index e3f54fb..54417c9 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -55,8 +55,9 @@ class ConditionalGP:
         # TO DO: all this could be more efficient
         #        also it's unclear if it works with MarginalizingTimingModel
         if self.pta._commonsignals:
-            TNr = np.concatenate(TNrs)
-            Sigma = sps.block_diag(TNTs, "csc") + sps.csc_matrix(phiinvs)
+            # pulsars without GPs have no coefficients
+            TNr = np.concatenate([TNr for TNr in TNrs if TNr is not None])
+            Sigma = sps.block_diag([TNT for TNT in TNTs if TNT is not None], "csc") + sps.csc_matrix(phiinvs)
 
             ch = cholesky(Sigma)
             mn = ch(TNr)
@@ -65,6 +66,9 @@ class ConditionalGP:
         else:
             mns, chs = [], []
             for TNr, TNT, phiinv in zip(TNrs, TNTs, phiinvs):
+                if TNT is None:
+                    continue
+
                 Sigma = TNT + (np.diag(phiinv) if phiinv.ndim == 1 else phiinv)
 
                 ch = sl.cho_factor(Sigma, lower=True)
@@ -98,6 +102,10 @@ class ConditionalGP:
                         continue
 
                     sb = sig.get_basis(params=params)
+                    if sb is None:
+                        # GPs with explicit coefficients
+                        continue
+
                     nb = sb.shape[1]
 
                     if nb + ntot > len(b):
@@ -147,6 +155,10 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
     # ...repeated code in the two if branches... refactor at will!
     if pta._commonsignals:
+        # pulsars without GPs have no coefficients
+        TNrs = [TNr for TNr in TNrs if TNr is not None]
+        TNTs = [TNT for TNT in TNTs if TNT is not None]
+
         if common_sparse:
             Sigma = sps.block_diag(TNTs, "csc") + sps.csc_matrix(phiinvs)
             TNr = np.concatenate(TNrs)
@@ -170,7 +182,12 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
             for i, model in enumerate(pta.pulsarmodels):
                 for sig in model._signals:
                     if sig.signal_type in ["basis", "common basis"]:
-                        nb = sig.get_basis(params=params).shape[1]
+                        basis = sig.get_basis(params=params)
+                        if basis is None:
+                            # GPs with explicit coefficients
+                            continue
+
+                        nb = basis.shape[1]
 
                         if nb + ntot > len(b):
                             raise IndexError(
@@ -190,6 +207,10 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
         for i, model in enumerate(pta.pulsarmodels):
             phiinv, d, TNT = phiinvs[i], TNrs[i], TNTs[i]
 
+            if TNT is None:
+                # pulsars without GPs have no coefficients
+                continue
+
             Sigma = TNT + (np.diag(phiinv) if phiinv.ndim == 1 else phiinv)
 
             try:
@@ -209,7 +230,12 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
                 pardict, ntot = {}, 0
                 for sig in model._signals:
                     if sig.signal_type in ["basis", "common basis"]:
-                        nb = sig.get_basis(params=params).shape[1]
+                        basis = sig.get_basis(params=params)
+                        if basis is None:
+                            # GPs with explicit coefficients
+                            continue
+
+                        nb = basis.shape[1]
 
                         if nb + ntot > len(b):
                             raise IndexError(
-- 
2.43.0


From bf34f3c1f4f601659b4955410b309e4fe5c2e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:43 +0000
Subject: [PATCH 31/38] fix: sparse likelihood reuses its symbolic
 decomposition only for the same sparsity pattern

---
 enterprise/signals/signal_base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 0c9bef3..0c69b42 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -236,12 +236,16 @@ class LogLikelihood(object):
                 try:
                     Sigma_sp = TNT + sps.csc_matrix(phiinv)
 
-                    if hasattr(self, "cf_sp"):
+                    # the analytical decomposition can be used only for the
+                    # pattern of nonzero elements that it was made for
+                    pattern = (Sigma_sp.indptr, Sigma_sp.indices)
+
+                    if hasattr(self, "cf_sp") and all(map(np.array_equal, pattern, self._cf_pattern)):
                         # Have analytical decomposition already. Just do update
                         self.cf_sp.cholesky_inplace(Sigma_sp)
                     else:
                         # Do analytical and numerical Sparse Cholesky
-                        self.cf_sp = cholesky(Sigma_sp)
+                        self.cf_sp, self._cf_pattern = cholesky(Sigma_sp), pattern
 
                     expval = self.cf_sp(TNr)
                     logdet_sigma = self.cf_sp.logdet()
-- 
2.43.0


From 86f8add720d2dd5c43d09efb0a5f2145484e7474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 32/38] fix: linear interpolation basis covers the last TOA
 when the time span is a multiple of the step (or zero)

---
 enterprise/signals/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 54417c9..726d87e 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -852,8 +852,8 @@ def linear_interp_basis(toas, dt=30 * 86400):
     :returns: Linear interpolation basis and nodes
     """
 
-    # evenly spaced points
-    x = np.arange(toas.min(), toas.max() + dt, dt)
+    # evenly spaced points, beyond the last TOA (nodes without TOAs are dropped below)
+    x = np.arange(toas.min(), toas.max() + 2 * dt, dt)
     M = np.zeros((len(toas), len(x)))
 
     # make linear interpolation basis
-- 
2.43.0


From bef26f05860300cf8502bc8de558c21da4a4fdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 33/38] fix: include constants overridden by the parameter
 dictionary in the cache keys

---
 enterprise/signals/signal_base.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 0c69b42..42aab58 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -108,6 +108,11 @@ class Signal(object):
         # return only nonconstant parameters
         return [par for par in self._params.values() if not isinstance(par, ConstantParameter)]
 
+    @property
+    def constant_names(self):
+        # a parameter dictionary may also override the value of a constant
+        return [par.name for par in self._params.values() if isinstance(par, ConstantParameter)]
+
     @property
     def param_names(self):
         ret = []
@@ -853,7 +858,10 @@ def SignalCollection(metasignals):  # noqa: C901
             self.white_params = []
             self.basis_params = []
             self.delay_params = []
+            self.constant_names = []
             for signal in self._signals:
+                self.constant_names.extend(getattr(signal, "constant_names", []))
+
                 if signal.signal_type == "white noise":
                     self.white_params.extend(signal.ndiag_params)
                 elif signal.signal_type in ["basis", "common basis"]:
@@ -1082,7 +1090,8 @@ def cache_call(attrs, limit=2):
     specified in the initial decorator call. For instance, if
     the decorator is applied as @cache_call('basis_params'), then
     the parameters listed in self.basis_params (together with their values)
-    will be used as the key.
+    will be used as the key. If the object has the attribute
+    `constant_names`, the parameters listed there are included also.
 
     The parameter 'limit' specifies the number of entries saved
     in the cache."""
@@ -1095,7 +1104,7 @@ def cache_call(attrs, limit=2):
         def wrapper(self, params={}):
 
             # get the relevant parameters to be cached
-            keys = sum([getattr(self, attr) for attr in attrs], [])
+            keys = sum([getattr(self, attr) for attr in attrs], []) + getattr(self, "constant_names", [])
             ret = []
             # TODO: this deals with vector parameters but could be cleaner...
             for key in keys:
-- 
2.43.0


From 38f0bfb553312f3d4f5f91de24c2a56a391ac341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:53 +0000
Subject: [PATCH 34/38] fix: named timing-model coefficients of the given
 pulsar only

---
 enterprise/signals/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 726d87e..33f99c0 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -115,7 +115,8 @@ class ConditionalGP:
                         if self.psr is None:
                             raise ValueError("Need to input psr to get timing model param names")
 
-                        for tm_par in self.tm_params:
+                        # the fit parameters are known for this pulsar only
+                        for tm_par in self.tm_params if sig.psrname == self.psr.name else []:
 
                             tm_idx = list(self.psr.fitpars).index(tm_par)
                             save_name = sig.name.split("_")[0] + "_" + tm_par
-- 
2.43.0


From 7fa42ff5a89ed03e70026f4c152cd67f585f592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:23 +0000
Subject: [PATCH 35/38] fix: conditional GP coefficients of a PTA without
 Gaussian processes

---
 enterprise/signals/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 33f99c0..8a09f6f 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -89,10 +89,11 @@ class ConditionalGP:
                 if variance:
                     b = b + ch.apply_Pt(ch.solve_Lt(np.random.randn(mn.shape[0]), use_LDLt_decomposition=False))
             else:
-                b = np.concatenate(mn)
+                # (no pulsar may have GPs)
+                b = np.concatenate([[]] + mn)
                 if variance:
                     b = b + np.concatenate(
-                        [sl.solve_triangular(c.T, np.random.randn(c.shape[0]), lower=False) for c in ch]
+                        [[]] + [sl.solve_triangular(c.T, np.random.randn(c.shape[0]), lower=False) for c in ch]
                     )
 
             pardict, ntot = {}, 0
@@ -251,6 +252,9 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
                 ret[j].update(pardict)
 
+        # no pulsar may have GPs
+        ret.extend([params.copy() for j in range(n - len(ret))])
+
         return ret[0] if n == 1 else ret
 
 
-- 
2.43.0


From cbe5252ee8d87bcf6201a10cc05748ab6088806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 36/38] fix: covariance of conditional GP samples when the SVD
 did not converge

---
 enterprise/signals/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 8a09f6f..c4c804d 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -223,8 +223,9 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
                 Q, R = sl.qr(Sigma)
                 Sigi = sl.solve(R, Q.T)
                 mn = np.dot(Sigi, d)
+                # (these are the singular values of the covariance itself)
                 u, s, _ = sl.svd(Sigi)
-                Li = u * np.sqrt(1 / s)
+                Li = u * np.sqrt(s)
 
             for j in range(n):
                 b = mn + (np.dot(Li, np.random.randn(Li.shape[0])) if variance else 0)
-- 
2.43.0


From 0c67bd61ae56768b5e39bede273a0ee53ee506ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 37/38] fix: a declared argument of a Function may be passed by
 position

---
 enterprise/signals/parameter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index a846061..51ff321 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -536,8 +536,11 @@ def Function(func, name="", **func_kwargs):
             #   them only the parameters they may care about
             # - [if the func itself has default parameters, they may yet
             #   apply if none of the above does]
+            # (arguments passed by position are left alone)
+            given = self.func_args[: len(args)] if func is self._func else []
+
             for kw, arg in self.func_kwargs.items():
-                if kw not in kwargs:
+                if kw not in kwargs and kw not in given:
                     if kw in self._params:
                         par = self._params[kw]
 
-- 
2.43.0


From cd16ebc63ab0cd72b15f9c4e5da957b3b519977d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:54 +0000
Subject: [PATCH 38/38] fix: feather files of pulsars with more than ten
 planets can be read

---
 enterprise/pulsar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 451bd13..d94f4d1 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -723,8 +723,10 @@ class FeatherPulsar:
             setattr(self, array, np.array([f[col].to_numpy() for col in cols]).swapaxes(0, 1).copy())
 
         for array in FeatherPulsar.tensor_columns:
-            rows = sorted(set(["_".join(c.split("_")[:-1]) for c in f.column_names if c.startswith(array)]))
-            cols = [[c for c in f.column_names if c.startswith(row)] for row in rows]
+            rows = set(["_".join(c.split("_")[:-1]) for c in f.column_names if c.startswith(array)])
+            # by number, since there may be more than ten
+            rows = sorted(rows, key=lambda row: int(row.split("_")[-1]))
+            cols = [[c for c in f.column_names if c.startswith(row + "_")] for row in rows]
             setattr(
                 self,
                 array,
-- 
2.43.0

