From 3148b5cea2030c2ce5ce557b432165be7cc16962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:19 +0000
Subject: [PATCH 01/74] fix: prox_l1 of complex array containing zeros returned
 NaN

---
 sporco/prox/_lp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/prox/_lp.py b/sporco/prox/_lp.py
index 1df8802..6e3ce1e 100644
--- a/sporco/prox/_lp.py
+++ b/sporco/prox/_lp.py
@@ -180,7 +180,7 @@ def prox_l1(v, alpha):
         else:
             return np.sign(v) * (np.clip(np.abs(v) - alpha, 0, float('Inf')))
     else:
-        return (v / np.abs(v)) * (np.clip(np.abs(v) - alpha, 0, float('Inf')))
+        return zdivide(v, np.abs(v)) * (np.clip(np.abs(v) - alpha, 0, float('Inf')))
 
 
 
-- 
2.43.0


From da9e29ffc3d4341c1ee357bbb030e3aaaa9881e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:19 +0000
Subject: [PATCH 02/74] fix: ndto2d (and proj_l1) failed when axis includes all
 array axes

---
 sporco/prox/_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/prox/_util.py b/sporco/prox/_util.py
index 16cacf4..0d7f9a9 100644
--- a/sporco/prox/_util.py
+++ b/sporco/prox/_util.py
@@ -60,7 +60,7 @@ def ndto2d(x, axis=-1):
     # Reshape into a 2D array with the axes specified by the axis
     # parameter flattened into an index along rows, and the remaining
     # axes flattened into an index along the columns
-    xtr = xt.reshape((np.prod(xts[0:len(caxis)]), -1))
+    xtr = xt.reshape((np.prod(xts[0:len(caxis)], dtype=int), -1))
     # Return reshaped array and a tuple containing the information
     # necessary to undo the entire operation
     return xtr, (xts, prm)
-- 
2.43.0


From 9da2c8e5de87fe6c75a578a879a7f1f051cbfea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 03/74] fix: solve_symmetric_sylvester replaced negative
 eigenvalues by their absolute value

---
 sporco/linalg.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sporco/linalg.py b/sporco/linalg.py
index a274522..3d8ed0b 100644
--- a/sporco/linalg.py
+++ b/sporco/linalg.py
@@ -851,7 +851,6 @@ def solve_symmetric_sylvester(A, B, C, alpha):
             LambdaA, QA = A, None
         else:
             LambdaA, QA = np.linalg.eigh(A)
-            LambdaA = np.abs(LambdaA)
     if LambdaA.ndim == 1:
         LambdaA = LambdaA[:, np.newaxis]
     if isinstance(B, tuple) and len(B) == 2:
@@ -862,7 +861,6 @@ def solve_symmetric_sylvester(A, B, C, alpha):
             LambdaB, QB = B, None
         else:
             LambdaB, QB = np.linalg.eigh(B)
-            LambdaB = np.abs(LambdaB)
     if LambdaB.ndim == 1:
         LambdaB = LambdaB[np.newaxis]
 
-- 
2.43.0


From 3787679840f9c253976e2d2deb43adad5246659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:38 +0000
Subject: [PATCH 04/74] fix: l1Wshape assigned multi-signal axis of weight
 array to channel axis

---
 sporco/cnvrep.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sporco/cnvrep.py b/sporco/cnvrep.py
index f0ec3f3..8a04905 100644
--- a/sporco/cnvrep.py
+++ b/sporco/cnvrep.py
@@ -535,12 +535,19 @@ def l1Wshape(W, cri):
                              'the same number of dimensions as input array')
     elif W.ndim == sdim:
         # Weight array has the same number of dimensions as the input array
-        shpW = W.shape + (1,) * (3 - cri.dimC - cri.dimK)
+        if cri.dimC == 0 and cri.dimK == 1:
+            # Final axis is a multi-signal axis
+            shpW = W.shape[0:cri.dimN] + (1,) + W.shape[cri.dimN:] + (1,)
+        else:
+            shpW = W.shape + (1,) * (3 - cri.dimC - cri.dimK)
     else:
         # Weight array has more dimensions than the input array
         if W.ndim == cri.dimN + 3:
             # Weight array is already of the appropriate shape
             shpW = W.shape
+        elif cri.dimC == 0 and cri.dimK == 1:
+            # Final two axes are multi-signal and filter axes
+            shpW = W.shape[0:cri.dimN] + (1,) + W.shape[cri.dimN:]
         else:
             # Assume that the final axis in the input array is the filter
             # index
-- 
2.43.0


From d62b1b109297e52a81ccf0bdb16e9ac4fcff2e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:43 +0000
Subject: [PATCH 05/74] fix: zero-mean dictionary constraint ignored number of
 spatial dimensions

---
 sporco/cnvrep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/cnvrep.py b/sporco/cnvrep.py
index 8a04905..346d8bf 100644
--- a/sporco/cnvrep.py
+++ b/sporco/cnvrep.py
@@ -1015,7 +1015,8 @@ def _Pcn_zm(x, dsz, Nv, dimN=2, dimC=1):
       Projection of input onto constraint set
     """
 
-    return normalise(zeromean(zpad(bcrop(x, dsz, dimN), Nv), dsz), dimN + dimC)
+    return normalise(zeromean(zpad(bcrop(x, dsz, dimN), Nv), dsz, dimN),
+                     dimN + dimC)
 
 
 
-- 
2.43.0


From 820519fee6b089a5bfe1d47d66d042e70c000c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:15 +0000
Subject: [PATCH 06/74] fix: setting option via key path bypassed __setitem__
 of nested options class

---
 sporco/cdict.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sporco/cdict.py b/sporco/cdict.py
index 901b4d1..044e559 100644
--- a/sporco/cdict.py
+++ b/sporco/cdict.py
@@ -148,6 +148,11 @@ class ConstrainedDict(dict):
         if isinstance(key, tuple):
             kc = key[-1]
             sd = self.__class__.getparent(self, key)
+            # Parent node may be of a derived class with its own
+            # __setitem__ method
+            if sd is not self:
+                sd[kc] = value
+                return
         # If value is not a dict, or if it is dict but also a
         # ConstrainedDict (meaning that it has already been
         # constructed, possibly as a derived class), or if it is a
-- 
2.43.0


From c63df5b044b823779402aa8a3d22ec232f1c9c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:47 +0000
Subject: [PATCH 07/74] fix: ConvBPDN failed when Y0 given without U0 and
 HighMemSolve ignored default rho

---
 sporco/admm/cbpdn.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 7b08026..6d175b3 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -566,14 +566,12 @@ class ConvBPDN(GenericConvBPDN):
         # Set dtype attribute based on S.dtype and opt['DataType']
         self.set_dtype(opt, S.dtype)
 
-        # Call parent class __init__
-        super(ConvBPDN, self).__init__(D, S, opt, dimK, dimN)
-
         # Set default lambda value if not specified
         if lmbda is None:
             cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
-            Df = self.fftn(D.reshape(cri.shpD), cri.Nv, axes=cri.axisN)
-            Sf = self.fftn(S.reshape(cri.shpS), axes=cri.axisN)
+            fftn = fftn_func(np.isrealobj(D) and np.isrealobj(S))
+            Df = fftn(D.reshape(cri.shpD), cri.Nv, axes=cri.axisN)
+            Sf = fftn(S.reshape(cri.shpS), axes=cri.axisN)
             b = np.conj(Df) * Sf
             lmbda = 0.1 * abs(b).max()
 
@@ -592,6 +590,10 @@ class ConvBPDN(GenericConvBPDN):
         self.set_attr('rho_xi', opt['AutoRho', 'RsdlTarget'], dval=rho_xi,
                       dtype=real_dtype(self.dtype), reset=True)
 
+        # Call parent class __init__ (after attributes lmbda and rho, which
+        # are required for initialisation of other attributes, are set)
+        super(ConvBPDN, self).__init__(D, S, opt, dimK, dimN)
+
         # Set l1 term weight array
         self.wl1 = np.asarray(opt['L1Weight'], dtype=real_dtype(self.dtype))
         self.wl1 = self.wl1.reshape(cr.l1Wshape(self.wl1, self.cri))
-- 
2.43.0


From aa887c3d94dc4551c542bc394a37a481a110cb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:20 +0000
Subject: [PATCH 08/74] fix: HighMemSolve cache of ConvElasticNet and
 ConvBPDNGradReg ignored mu after change of rho

---
 sporco/admm/cbpdn.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 6d175b3..4ee79af 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -989,6 +989,16 @@ class ConvElasticNet(ConvBPDN):
 
 
 
+    def rhochange(self):
+        """Updated cached c array when rho changes."""
+
+        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
+            self.c = sl.solvedbi_sm_c(
+                self.Df, np.conj(self.Df), self.mu + self.rho,
+                self.cri.axisM)
+
+
+
 
 
 class ConvBPDNGradReg(ConvBPDN):
@@ -1217,6 +1227,16 @@ class ConvBPDNGradReg(ConvBPDN):
 
 
 
+    def rhochange(self):
+        """Updated cached c array when rho changes."""
+
+        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
+            self.c = sl.solvedbd_sm_c(
+                self.Df, np.conj(self.Df), self.mu * self.GHGf + self.rho,
+                self.cri.axisM)
+
+
+
 
 
 class ConvBPDNProjL1(GenericConvBPDN):
-- 
2.43.0


From c76f3fba2ea9a4cfed49de5971b421920631467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:20 +0000
Subject: [PATCH 09/74] fix: AddMaskSim.setdict raised an exception

---
 sporco/admm/cbpdn.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 4ee79af..097f497 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2450,9 +2450,15 @@ class AddMaskSim(object):
     def setdict(self, D=None):
         """Set dictionary array."""
 
-        Di = np.concatenate((D, sl.atleast_nd(D.ndim, self.imp)),
-                            axis=D.ndim-1)
-        self.cbpdn.setdict(Di)
+        if D is None:
+            self.cbpdn.setdict()
+        else:
+            imp = self.imp
+            if D.ndim > imp.ndim:
+                imp = cr.stdformD(imp, self.cri.Cd, self.cri.Cd,
+                                  self.cri.dimN)
+            Di = np.concatenate((D, imp), axis=D.ndim-1)
+            self.cbpdn.setdict(Di)
 
 
 
-- 
2.43.0


From 2896c6b727b0206103f4190332923a73ad82cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:20 +0000
Subject: [PATCH 10/74] fix: AddMaskSim applied mask with singleton axes to
 first signal or channel only

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 097f497..5dc1897 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2409,7 +2409,7 @@ class AddMaskSim(object):
         self.inner_ystep()
         # Apply mask to AMS component and insert into Y from inner
         # cbpdn object
-        Yi[np.where(self.W.astype(bool))] = 0.0
+        Yi[np.broadcast_to(self.W.astype(bool), Yi.shape)] = 0.0
         self.cbpdn.Y[amidx] = Yi
 
 
-- 
2.43.0


From e7ef8abe8ef5324e288f4e4ce293c20a223176c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:20 +0000
Subject: [PATCH 11/74] fix: MultiDictConvBPDN.reconstruct raised NameError

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 5dc1897..965b0b4 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2926,7 +2926,7 @@ class MultiDictConvBPDN(object):
 
         if X is None:
             X = self.getcoef()
-        Xf = rfftn(X, None, self.cbpdn.cri.axisN)
+        Xf = self.cbpdn.fftn(X, None, self.cbpdn.cri.axisN)
         slc = (slice(None),)*self.dimN + \
               (slice(self.chncs[b], self.chncs[b+1]),)
         Sf = np.sum(self.cbpdn.Df[slc] * Xf, axis=self.cbpdn.cri.axisM)
-- 
2.43.0


From d6be78f874155cfdec0069c639e70d264f820e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:20 +0000
Subject: [PATCH 12/74] fix: MultiDictConvBPDN stacked multi-channel signals on
 the wrong axis

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 965b0b4..d41707e 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2879,7 +2879,7 @@ class MultiDictConvBPDN(object):
         # Construct single signal array (this is simpler since all
         # members of the signal set are assumed to be of the same
         # size)
-        Sm = np.concatenate([S[b][slc0] for b in range(0, len(S))], dimN+dimC)
+        Sm = np.concatenate([S[b][slc0] for b in range(0, len(S))], dimN)
 
         # Construct inner cbpdn object
         self.cbpdn = cbpdnclass(Dm, Sm, *args, **kwargs)
-- 
2.43.0


From 89a3bf1b93be8d47f546e2b1690298ab5098fbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:34 +0000
Subject: [PATCH 13/74] fix: solvers with data-dependent initial U raised an
 exception when only Y0 given

---
 sporco/admm/bpdn.py   |  6 +++++-
 sporco/admm/cbpdn.py  | 14 +++++++++-----
 sporco/admm/spline.py |  4 +++-
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/sporco/admm/bpdn.py b/sporco/admm/bpdn.py
index 459ee9d..864bc99 100644
--- a/sporco/admm/bpdn.py
+++ b/sporco/admm/bpdn.py
@@ -1061,6 +1061,11 @@ class MinL1InL2Ball(admm.ADMMTwoBlockCnstrnt):
         Nm = S.shape[1]
         if opt is None:
             opt = MinL1InL2Ball.Options()
+
+        # Set S attribute, which is required for initialisation of U
+        self.set_dtype(opt, S.dtype)
+        self.S = np.asarray(S, dtype=self.dtype)
+
         super(MinL1InL2Ball, self).__init__(Nc * Nm, (Nc + Nr, Nm), 0, Nc,
                                             S.dtype, opt)
 
@@ -1068,7 +1073,6 @@ class MinL1InL2Ball(admm.ADMMTwoBlockCnstrnt):
         self.epsilon = self.dtype.type(epsilon)
         self.wl1 = np.asarray(opt['L1Weight'], dtype=self.dtype)
 
-        self.S = np.asarray(S, dtype=self.dtype)
         self.setdict(D)
 
 
diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index d41707e..0195021 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2031,9 +2031,8 @@ class ConvMinL1InL2Ball(ConvTwoBlockCnstrnt):
             # If initial Y is non-zero, initial U is chosen so that
             # the relevant dual optimality criterion (see (3.10) in
             # boyd-2010-distributed) is satisfied.
-            U0 = np.sign(self.block_sep0(self.Y)) / self.rho
-            U1 = self.block_sep1(self.Y) - sl.atleast_nd(self.cri.dimN+3,
-                                                         self.S)
+            U0 = self.block_sep0(self.Y)
+            U1 = np.sign(self.block_sep1(self.Y)) / self.rho
             return self.block_cat(U0, U1)
 
 
@@ -2231,13 +2230,18 @@ class ConvBPDNMaskDcpl(ConvTwoBlockCnstrnt):
         if opt is None:
             opt = ConvBPDNMaskDcpl.Options()
 
-        super(ConvBPDNMaskDcpl, self).__init__(D, S, opt, dimK=dimK, dimN=dimN)
-
+        # Set dtype and cri attributes, and lmbda and W attributes that are
+        # required for initialisation of U
+        self.set_dtype(opt, S.dtype)
+        self.cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
         self.lmbda = self.dtype.type(lmbda)
         if W is None:
             W = np.array([1.0], dtype=self.dtype)
         self.W = np.asarray(W.reshape(cr.mskWshape(W, self.cri)),
                             dtype=self.dtype)
+
+        super(ConvBPDNMaskDcpl, self).__init__(D, S, opt, dimK=dimK, dimN=dimN)
+
         self.wl1 = np.asarray(opt['L1Weight'], dtype=self.dtype)
         self.wl1 = self.wl1.reshape(cr.l1Wshape(self.wl1, self.cri))
 
diff --git a/sporco/admm/spline.py b/sporco/admm/spline.py
index 6eb2df5..b6ed7ea 100644
--- a/sporco/admm/spline.py
+++ b/sporco/admm/spline.py
@@ -154,11 +154,13 @@ class SplineL1(admm.ADMM):
         self.set_attr('rho', opt['rho'], dval=(2.0*self.lmbda + 0.1),
                       dtype=self.dtype)
 
+        # Set data fidelity weight (required for initialisation of U)
+        self.Wdf = np.asarray(opt['DFidWeight'], dtype=self.dtype)
+
         Nx = S.size
         super(SplineL1, self).__init__(Nx, S.shape, S.shape, S.dtype, opt)
 
         self.S = np.asarray(S, dtype=self.dtype)
-        self.Wdf = np.asarray(self.opt['DFidWeight'], dtype=self.dtype)
 
         ashp = [1,] * S.ndim
         for ax in axes:
-- 
2.43.0


From 929cbe5fa1d138bd52ccf5ac5e5885eba0c572d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:06 +0000
Subject: [PATCH 14/74] fix: NoBndryCross zeroed the entire coefficient array
 for filters of unit size

---
 sporco/admm/cbpdn.py    | 6 ++++--
 sporco/admm/parcbpdn.py | 2 +-
 sporco/pgm/cbpdn.py     | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 0195021..0683ad8 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -308,7 +308,8 @@ class GenericConvBPDN(admm.ADMMEqual):
         if self.opt['NoBndryCross']:
             for n in range(0, self.cri.dimN):
                 self.Y[(slice(None),) * n +
-                       (slice(1 - self.D.shape[n], None),)] = 0.0
+                       (slice(self.cri.Nv[n] - self.D.shape[n] + 1,
+                              None),)] = 0.0
 
 
 
@@ -1678,7 +1679,8 @@ class ConvTwoBlockCnstrnt(admm.ADMMTwoBlockCnstrnt):
             if self.opt['NoBndryCross']:
                 for n in range(0, self.cri.dimN):
                     Y1[(slice(None),)*n +
-                       (slice(1-self.D.shape[n], None),)] = 0.0
+                       (slice(self.cri.Nv[n] - self.D.shape[n] + 1,
+                              None),)] = 0.0
             self.block_sep1(self.Y)[:] = Y1
 
 
diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index f8ff768..0e87071 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -229,7 +229,7 @@ def par_y1step(i):
     if mp_NoBndryCross:
         for n in range(len(mp_Nv)):
             Y1[(slice(None),) + (slice(None),)*n +
-               (slice(1-mp_Dshp[n], None),)] = 0.0
+               (slice(mp_Nv[n]-mp_Dshp[n]+1, None),)] = 0.0
     mp_Y1[mp_grp[i]:mp_grp[i+1]] = Y1
 
 
diff --git a/sporco/pgm/cbpdn.py b/sporco/pgm/cbpdn.py
index 95a9d73..2941724 100644
--- a/sporco/pgm/cbpdn.py
+++ b/sporco/pgm/cbpdn.py
@@ -294,7 +294,8 @@ class ConvBPDN(pgm.PGMDFT):
         if self.opt['NoBndryCross']:
             for n in range(0, self.cri.dimN):
                 U[(slice(None),) * n +
-                  (slice(1 - self.D.shape[n], None),)] = 0.0
+                  (slice(self.cri.Nv[n] - self.D.shape[n] + 1,
+                         None),)] = 0.0
         return U
 
 
-- 
2.43.0


From 060b05bdcaac74e132fbd7dcd82627432a048398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:35 +0000
Subject: [PATCH 15/74] fix: joint sparsity classes failed with default options

---
 sporco/admm/cbpdn.py | 2 +-
 sporco/admm/pdcsc.py | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 0683ad8..0fe80cf 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -777,7 +777,7 @@ class ConvBPDNJoint(ConvBPDN):
         """
 
         if opt is None:
-            opt = ConvBPDN.Options()
+            opt = ConvBPDNJoint.Options()
         super(ConvBPDNJoint, self).__init__(D, S, lmbda, opt, dimK=dimK,
                                             dimN=dimN)
         self.mu = self.dtype.type(mu)
diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 90ecec5..8740c64 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -672,6 +672,10 @@ class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
           Number of spatial dimensions
         """
 
+        # Set default options if none specified
+        if opt is None:
+            opt = ConvProdDictL1L1GrdJoint.Options()
+
         super(ConvProdDictL1L1GrdJoint, self).__init__(D, B, S, lmbda, mu,
                                             opt=opt, dimK=dimK, dimN=dimN)
         self.wl21 = np.asarray(opt['L21Weight'], dtype=self.dtype)
-- 
2.43.0


From b87f285604767c926a132889f151e32169a6d54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:35 +0000
Subject: [PATCH 16/74] fix: ConvProdDictBPDN.setdict with only B specified
 used outdated B

---
 sporco/admm/pdcsc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 8740c64..93260ff 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -116,6 +116,7 @@ class ConvProdDictBPDN(cbpdn.ConvBPDN):
         if D is not None or not hasattr(self, 'Df'):
             self.Df = rfftn(self.D, self.cri.Nv, self.cri.axisN)
             self.DSf = np.conj(self.Df) * self.Sf
+        if D is not None or B is not None or not hasattr(self, 'DSfBQ'):
             self.DSfBQ = dot(self.B.dot(self.Q).T, self.DSf,
                              axis=self.cri.axisC)
 
-- 
2.43.0


From fa323c6a66fb8e8eb6decaace59fbda05505f330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:35 +0000
Subject: [PATCH 17/74] fix: ConvProdDictL1L1Grd ignored options Y0 and U0

---
 sporco/admm/pdcsc.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 93260ff..e6b192b 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -399,12 +399,27 @@ class ConvProdDictL1L1Grd(cbpdn.ConvL1L1Grd):
         self.y0I = int(np.prod(np.array(self.y0shp[self.cri.axisC:])))
         self.y1I = int(np.prod(np.array(self.y1shp[self.cri.axisC:])))
         self.yshp = self.cri.shpX[0:self.cri.axisC:] + (self.y0I + self.y1I,)
-        self.Y = np.zeros(self.yshp, dtype=self.dtype)
-        self.U = np.zeros(self.yshp, dtype=self.dtype)
+        if opt['Y0'] is None:
+            self.Y = np.zeros(self.yshp, dtype=self.dtype)
+        else:
+            self.Y = opt['Y0'].astype(self.dtype, copy=True)
+        self.Yprev = self.Y.copy()
+        if opt['U0'] is None:
+            self.U = np.zeros(self.yshp, dtype=self.dtype)
+        else:
+            self.U = opt['U0'].astype(self.dtype, copy=True)
         self.YU = empty_aligned(self.Y.shape, dtype=self.dtype)
 
 
 
+    def uinit(self, ushape):
+        """Return initialiser for working variable U."""
+
+        # The final form of U is set in the __init__ method
+        return np.zeros(ushape, dtype=self.dtype)
+
+
+
     def block_sep0(self, Y):
         r"""Separate variable into component corresponding to
         :math:`\mathbf{y}_0` in :math:`\mathbf{y}\;\;`.
-- 
2.43.0


From 3f0664d928eca646665ba4162952160fb39804f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:35 +0000
Subject: [PATCH 18/74] fix: ParConvBPDN compared iteration numbers by identity

---
 sporco/admm/parcbpdn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index 0e87071..b3f39ad 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -771,10 +771,10 @@ class ParConvBPDN(GenericConvBPDN):
             mp_Y1old[:] = np.copy(mp_Y1)
 
             # Perform the variable updates.
-            if self.k is first_iteration:
+            if self.k == first_iteration:
                 self.distribute(par_initial_stepgrp, mp_ngrp)
             y0astep()
-            if self.k is last_iteration:
+            if self.k == last_iteration:
                 self.distribute(par_final_stepgrp, mp_ngrp)
             else:
                 self.distribute(par_stepgrp, mp_ngrp)
-- 
2.43.0


From c8e6aebdd27f69871ef80fe9291e32c4e3e19dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:35 +0000
Subject: [PATCH 19/74] fix: ParConvBPDN summed over wrong axis for
 multi-channel dictionary

---
 sporco/admm/parcbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index b3f39ad..10dc10e 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -151,7 +151,7 @@ def par_xstep(i):
                             mp_cache[i], axis=mp_axisM)
     else:
         b = sl.inner(np.conj(mp_Df[mp_grp[i]:mp_grp[i+1]]), YU0f,
-                     axis=mp_C) + mp_alpha**2*YU1f
+                     axis=mp_axisC) + mp_alpha**2*YU1f
         Xf = sl.solvemdbi_ism(mp_Df[mp_grp[i]:mp_grp[i+1]], mp_alpha**2, b,
                               mp_axisM, mp_axisC)
     mp_X[mp_grp[i]:mp_grp[i+1]] = irfftn(Xf, mp_Nv,
-- 
2.43.0


From b75d1500c420217ee2d6a02e0487ece9620d006d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:35 +0000
Subject: [PATCH 20/74] fix: ParConvBPDN failed when initial values of Y and U
 specified

---
 sporco/admm/parcbpdn.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index 10dc10e..7d3578f 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -638,7 +638,8 @@ class ParConvBPDN(GenericConvBPDN):
         global mp_Df
         init_mpraw('mp_Df', np.moveaxis(self.Df, self.cri.axisM, mp_axisM))
         global mp_X
-        init_mpraw('mp_X', np.moveaxis(self.Y, self.cri.axisM, mp_axisM))
+        init_mpraw('mp_X', np.moveaxis(np.zeros(self.cri.shpX, self.dtype),
+                                       self.cri.axisM, mp_axisM))
         shp_X = list(mp_X.shape)
         global mp_Xnr
         mp_Xnr = mpraw_as_np(mp_X.shape, mp_X.dtype)
@@ -647,7 +648,7 @@ class ParConvBPDN(GenericConvBPDN):
         shp_Y0[0] = self.ngrp
         shp_Y0[mp_axisC] = mp_C
         if self.opt['Y0'] is not None:
-            init_mpraw('Y0', np.moveaxis(
+            init_mpraw('mp_Y0', np.moveaxis(
                 self.opt['Y0'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
@@ -656,7 +657,7 @@ class ParConvBPDN(GenericConvBPDN):
         mp_Y0old = mpraw_as_np(shp_Y0, mp_X.dtype)
         global mp_Y1
         if self.opt['Y1'] is not None:
-            init_mpraw('Y1', np.moveaxis(
+            init_mpraw('mp_Y1', np.moveaxis(
                 self.opt['Y1'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
@@ -665,14 +666,14 @@ class ParConvBPDN(GenericConvBPDN):
         mp_Y1old = mpraw_as_np(shp_X, mp_X.dtype)
         global mp_U0
         if self.opt['U0'] is not None:
-            init_mpraw('U0', np.moveaxis(
+            init_mpraw('mp_U0', np.moveaxis(
                 self.opt['U0'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
             mp_U0 = mpraw_as_np(shp_Y0, mp_X.dtype)
         global mp_U1
         if self.opt['U1'] is not None:
-            init_mpraw('U1', np.moveaxis(
+            init_mpraw('mp_U1', np.moveaxis(
                 self.opt['U1'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
-- 
2.43.0


From 68b22505a2aafac87fb00fa17e063ebaaf150bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:07 +0000
Subject: [PATCH 21/74] fix: ConvL1L1Grd and derived classes failed when
 HighMemSolve enabled

---
 sporco/admm/cbpdn.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 0fe80cf..a5a0961 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2676,9 +2676,10 @@ class ConvL1L1Grd(ConvBPDNMaskDcpl):
         if opt is None:
             opt = ConvL1L1Grd.Options()
 
-        super(ConvL1L1Grd, self).__init__(D, S, lmbda, W, opt, dimK=dimK,
-                                          dimN=dimN)
-
+        # Set dtype and cri attributes, and attributes related to the
+        # gradient term, that are required by setdict
+        self.set_dtype(opt, S.dtype)
+        self.cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
         self.mu = self.dtype.type(mu)
         if hasattr(opt['GradWeight'], 'ndim'):
             self.Wgrd = np.asarray(opt['GradWeight'].reshape((1,)*(dimN+2) +
@@ -2690,6 +2691,9 @@ class ConvL1L1Grd(ConvBPDNMaskDcpl):
                                          self.cri.Nv, dtype=self.dtype)
         self.GHGf = self.Wgrd * GHGf
 
+        super(ConvL1L1Grd, self).__init__(D, S, lmbda, W, opt, dimK=dimK,
+                                          dimN=dimN)
+
 
 
     def setdict(self, D=None):
-- 
2.43.0


From cf8aa0e66b7a678d16a1c9d6babaa58cad7a002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:34 +0000
Subject: [PATCH 22/74] fix: ConvBPDNScalarTV y step applied l2 prox to the
 entire array

---
 sporco/admm/cbpdntv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 5981405..6baf958 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -316,7 +316,8 @@ class ConvBPDNScalarTV(admm.ADMM):
         :math:`\mathbf{y}`."""
 
         AXU = self.AX + self.U
-        self.Y[..., 0:-1] = sp.prox_l2(AXU[..., 0:-1], self.mu/self.rho)
+        self.Y[..., 0:-1] = sp.prox_l2(AXU[..., 0:-1], self.mu/self.rho,
+                                       axis=-1)
         self.Y[..., -1] = sp.prox_l1(AXU[..., -1],
                                      (self.lmbda/self.rho) * self.Wl1)
 
-- 
2.43.0


From 99f3aba22400a0ac8d637f0e6a16735f4c01d5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:34 +0000
Subject: [PATCH 23/74] fix: ConvBPDNScalarTV x step incorrect for
 filter-dependent TVWeight

---
 sporco/admm/cbpdntv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 6baf958..7de7817 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -256,7 +256,7 @@ class ConvBPDNScalarTV(admm.ADMM):
         if self.cri.Cd > 1:
             self.DSf = np.sum(self.DSf, axis=self.cri.axisC, keepdims=True)
         if self.opt['HighMemSolve'] and self.cri.Cd == 1:
-            self.c = sl.solvedbi_sm_c(
+            self.c = sl.solvedbd_sm_c(
                 self.Df, np.conj(self.Df), self.rho*self.GHGf + self.rho,
                 self.cri.axisM)
         else:
@@ -268,7 +268,7 @@ class ConvBPDNScalarTV(admm.ADMM):
         """Updated cached c array when rho changes."""
 
         if self.opt['HighMemSolve'] and self.cri.Cd == 1:
-            self.c = sl.solvedbi_sm_c(
+            self.c = sl.solvedbd_sm_c(
                 self.Df, np.conj(self.Df), self.rho*self.GHGf + self.rho,
                 self.cri.axisM)
 
@@ -287,7 +287,7 @@ class ConvBPDNScalarTV(admm.ADMM):
             np.conj(self.Gf) * YUf[..., 0:-1], axis=-1))
 
         if self.cri.Cd == 1:
-            self.Xf[:] = sl.solvedbi_sm(
+            self.Xf[:] = sl.solvedbd_sm(
                 self.Df, self.rho*self.GHGf + self.rho, b, self.c,
                 self.cri.axisM)
         else:
-- 
2.43.0


From 6f7da5d49a73fcdde74717b9092ad8caeed0d6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:34 +0000
Subject: [PATCH 24/74] fix: ConvBPDNRecTV did not update TV block of Y for
 multi-channel dictionary and multiple signals

---
 sporco/admm/cbpdntv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 7de7817..78ff370 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -1101,10 +1101,11 @@ class ConvBPDNRecTV(admm.ADMM):
         :math:`\mathbf{y}`."""
 
         AXU = self.AX + self.U
-        self.block_sep0(self.Y)[:] = sp.prox_l1(
+        Y0 = sp.prox_l1(
             self.block_sep0(AXU), (self.lmbda/self.rho) * self.Wl1)
-        self.block_sep1(self.Y)[:] = sp.prox_l2(
+        Y1 = sp.prox_l2(
             self.block_sep1(AXU), self.mu/self.rho, axis=(self.cri.axisC, -1))
+        self.Y = self.block_cat(Y0, Y1)
 
 
 
-- 
2.43.0


From 4ae0796e41b71aee94b7d72be952b512b4c87e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:34 +0000
Subject: [PATCH 25/74] fix: ConvBPDNRecTV dual residual did not sum over
 channels of multi-channel dictionary

---
 sporco/admm/cbpdntv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 78ff370..a4f1cbe 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -1281,8 +1281,10 @@ class ConvBPDNRecTV(admm.ADMM):
         """
 
         Y1f = rfftn(Y1, None, axes=self.cri.axisN)
-        return irfftn(np.conj(self.GDf) * Y1f, self.cri.Nv,
-                      self.cri.axisN)
+        A1TY1f = np.conj(self.GDf) * Y1f
+        if self.cri.Cd > 1:
+            A1TY1f = np.sum(A1TY1f, axis=self.cri.axisC, keepdims=True)
+        return irfftn(A1TY1f, self.cri.Nv, self.cri.axisN)
 
 
 
-- 
2.43.0


From 462c941391a400f9de29968161869e645fb4f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:34 +0000
Subject: [PATCH 26/74] fix: TV denoising classes required axes to be the
 initial axes in order

---
 sporco/admm/tvl1.py | 3 ++-
 sporco/admm/tvl2.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/tvl1.py b/sporco/admm/tvl1.py
index 5380f68..28c3127 100644
--- a/sporco/admm/tvl1.py
+++ b/sporco/admm/tvl1.py
@@ -333,7 +333,8 @@ class TVL1Denoise(admm.ADMM):
         """
 
         return np.sum(np.concatenate(
-            [gradT(X[..., ax], ax)[..., np.newaxis] for ax in self.axes] +
+            [gradT(X[..., k], ax)[..., np.newaxis]
+             for k, ax in enumerate(self.axes)] +
             [X[..., -1:],], axis=X.ndim-1), axis=X.ndim-1)
 
 
diff --git a/sporco/admm/tvl2.py b/sporco/admm/tvl2.py
index 348fb36..2fefc14 100644
--- a/sporco/admm/tvl2.py
+++ b/sporco/admm/tvl2.py
@@ -323,7 +323,8 @@ class TVL2Denoise(admm.ADMM):
         """
 
         return np.sum(np.concatenate(
-            [gradT(X[..., ax], ax)[..., np.newaxis] for ax in self.axes],
+            [gradT(X[..., k], ax)[..., np.newaxis]
+             for k, ax in enumerate(self.axes)],
             axis=X.ndim-1), axis=X.ndim-1)
 
 
-- 
2.43.0


From 5ece6d8b5d805460df267262bfecb4fe90cb24c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:54 +0000
Subject: [PATCH 27/74] fix: ElasticNet.setdict ignored the DataType option

---
 sporco/admm/bpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/bpdn.py b/sporco/admm/bpdn.py
index 864bc99..1842aee 100644
--- a/sporco/admm/bpdn.py
+++ b/sporco/admm/bpdn.py
@@ -699,7 +699,7 @@ class ElasticNet(BPDN):
     def setdict(self, D):
         """Set dictionary array."""
 
-        self.D = np.asarray(D)
+        self.D = np.asarray(D, dtype=self.dtype)
         self.DTS = self.D.T.dot(self.S)
         # Factorise dictionary for efficient solves
         self.lu, self.piv = sl.cho_factor(self.D, self.mu + self.rho)
-- 
2.43.0


From 12f2173183b19b0bb9244d97133634e06c8c39e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:38 +0000
Subject: [PATCH 28/74] fix: L21Weight array of documented shape raised an
 exception or was misaligned

---
 sporco/admm/cbpdn.py | 9 ++++++++-
 sporco/admm/pdcsc.py | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index a5a0961..e249ca2 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -782,6 +782,12 @@ class ConvBPDNJoint(ConvBPDN):
                                             dimN=dimN)
         self.mu = self.dtype.type(mu)
         self.wl21 = np.asarray(opt['L21Weight'], dtype=self.dtype)
+        # Weights are specified without a channel axis
+        if 0 < self.wl21.ndim < self.cri.dimN + 3:
+            shp = (1,) * (self.cri.dimN + 2 - self.wl21.ndim) + \
+                self.wl21.shape
+            self.wl21 = np.expand_dims(self.wl21.reshape(shp),
+                                       self.cri.axisC)
 
 
 
@@ -806,7 +812,8 @@ class ConvBPDNJoint(ConvBPDN):
 
         rl1 = np.linalg.norm((self.wl1 * self.obfn_gvar()).ravel(), 1)
         rl21 = np.sum(self.wl21 * np.sqrt(np.sum(self.obfn_gvar()**2,
-                                                 axis=self.cri.axisC)))
+                                                 axis=self.cri.axisC,
+                                                 keepdims=True)))
         return (self.lmbda*rl1 + self.mu*rl21, rl1, rl21)
 
 
diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index e6b192b..b6d5901 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -695,6 +695,12 @@ class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
         super(ConvProdDictL1L1GrdJoint, self).__init__(D, B, S, lmbda, mu,
                                             opt=opt, dimK=dimK, dimN=dimN)
         self.wl21 = np.asarray(opt['L21Weight'], dtype=self.dtype)
+        # Weights are specified without a channel axis
+        if 0 < self.wl21.ndim < self.cri.dimN + 3:
+            shp = (1,) * (self.cri.dimN + 2 - self.wl21.ndim) + \
+                self.wl21.shape
+            self.wl21 = np.expand_dims(self.wl21.reshape(shp),
+                                       self.cri.axisC)
 
 
 
@@ -718,4 +724,5 @@ class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
         function.
         """
 
-        return np.sum(self.wl21 * np.sqrt(np.sum(Y1**2, axis=self.cri.axisC)))
+        return np.sum(self.wl21 * np.sqrt(np.sum(Y1**2, axis=self.cri.axisC,
+                                                 keepdims=True)))
-- 
2.43.0


From c463b1266154f4ca88a8a2086f2fc97cbf9c1faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:30 +0000
Subject: [PATCH 29/74] fix: ConvTwoBlockCnstrnt stopping tolerance ignored
 channels of single-channel dictionary problems

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index e249ca2..a5b166c 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -1595,7 +1595,7 @@ class ConvTwoBlockCnstrnt(admm.ADMMTwoBlockCnstrnt):
         self.y0swapaxes = bool(self.cri.C > 1 and self.cri.Cd > 1)
 
         # Call parent class __init__
-        Nx = self.cri.M * self.cri.N * self.cri.K
+        Nx = int(np.prod(self.cri.shpX))
         shpY = list(self.cri.shpX)
         if self.y0swapaxes:
             shpY[self.cri.axisC] = 1
-- 
2.43.0


From cdf3ee0054feb044430d86a4e74e240ab02e4803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:26 +0000
Subject: [PATCH 30/74] fix: grad and gradT wrong for negative axis, gradT
 failed for axis of unit length

---
 sporco/signal.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index 802b091..78f6d34 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -162,8 +162,8 @@ def grad(x, axis, zero_pad=False):
     if zero_pad:
         xg = np.diff(x, axis=axis, prepend=0, append=0)
     else:
-        slc = (slice(None),)*axis + (slice(-1, None),)
         xg = np.roll(x, -1, axis=axis) - x
+        slc = (slice(None),)*(axis % xg.ndim) + (slice(-1, None),)
         xg[slc] = 0.0
     return xg
 
@@ -193,10 +193,11 @@ def gradT(x, axis, zero_pad=False):
     if zero_pad:
         xg = -np.diff(x, axis=axis)
     else:
-        slc0 = (slice(None),) * axis
-        xg = np.roll(x, 1, axis=axis) - x
-        xg[slc0 + (slice(0, 1),)] = -x[slc0 + (slice(0, 1),)]
-        xg[slc0 + (slice(-1, None),)] = x[slc0 + (slice(-2, -1),)]
+        slc0 = (slice(None),) * (axis % x.ndim)
+        xs = x[slc0 + (slice(0, -1),)]
+        xg = np.zeros_like(x)
+        xg[slc0 + (slice(1, None),)] = xs
+        xg[slc0 + (slice(0, -1),)] -= xs
     return xg
 
 
-- 
2.43.0


From 4321ea96616f95a5914c717b02ac123fef28740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:44 +0000
Subject: [PATCH 31/74] fix: gradient_filters failed unless axes are the
 initial axes

---
 sporco/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index 78f6d34..febff30 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -230,8 +230,8 @@ def gradient_filters(ndim, axes, axshp, dtype=None):
         dtype = np.float32
     g = np.zeros([2 if k in axes else 1 for k in range(ndim)] +
                  [len(axes),], dtype)
-    for k in axes:
-        g[(0,) * k + (slice(None),) + (0,) * (g.ndim - 2 - k) + (k,)] = \
+    for n, k in enumerate(axes):
+        g[(0,) * k + (slice(None),) + (0,) * (g.ndim - 2 - k) + (n,)] = \
             np.array([1, -1])
     if is_complex_dtype(dtype):
         Gf = fftn(g, axshp, axes=axes)
-- 
2.43.0


From a15ad6b26a6c5d987fa4972f061818f14ec2dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:48 +0000
Subject: [PATCH 32/74] fix: ConvProdDictL1L1Grd stopping tolerance used number
 of channels of X instead of those of S

---
 sporco/admm/pdcsc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index b6d5901..958687b 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -399,6 +399,7 @@ class ConvProdDictL1L1Grd(cbpdn.ConvL1L1Grd):
         self.y0I = int(np.prod(np.array(self.y0shp[self.cri.axisC:])))
         self.y1I = int(np.prod(np.array(self.y1shp[self.cri.axisC:])))
         self.yshp = self.cri.shpX[0:self.cri.axisC:] + (self.y0I + self.y1I,)
+        self.Nc = int(np.prod(np.array(self.yshp)))
         if opt['Y0'] is None:
             self.Y = np.zeros(self.yshp, dtype=self.dtype)
         else:
-- 
2.43.0


From 836fbba0b5f2c6439233c4f822b820b3e4aef5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:44 +0000
Subject: [PATCH 33/74] fix: ConvBPDNScalarTV and ConvBPDNVectorTV misaligned
 array L1Weight in reported objective

---
 sporco/admm/cbpdntv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index a4f1cbe..845e31c 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -442,7 +442,8 @@ class ConvBPDNScalarTV(admm.ADMM):
         function.
         """
 
-        rl1 = np.linalg.norm((self.Wl1 * self.obfn_g1var()).ravel(), 1)
+        rl1 = np.linalg.norm((self.Wl1[..., np.newaxis] *
+                              self.obfn_g1var()).ravel(), 1)
         rtv = np.sum(np.sqrt(np.sum(self.obfn_g0var()**2, axis=-1)))
         return (self.lmbda*rl1 + self.mu*rtv, rl1, rtv)
 
@@ -722,7 +723,8 @@ class ConvBPDNVectorTV(ConvBPDNScalarTV):
         function.
         """
 
-        rl1 = np.linalg.norm((self.Wl1 * self.obfn_g1var()).ravel(), 1)
+        rl1 = np.linalg.norm((self.Wl1[..., np.newaxis] *
+                              self.obfn_g1var()).ravel(), 1)
         rtv = np.sum(np.sqrt(np.sum(self.obfn_g0var()**2,
                                     axis=(self.cri.axisM, -1))))
         return (self.lmbda*rl1 + self.mu*rtv, rl1, rtv)
-- 
2.43.0


From 505b310e53d748229215150685fe5a4cbf104893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:29 +0000
Subject: [PATCH 34/74] fix: ConvProdDictL1L1GrdJoint converted single
 precision data to double precision

---
 sporco/admm/pdcsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 958687b..03d550a 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -712,7 +712,7 @@ class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
 
         AXU = self.AX + self.U
         Y0 = prox_l1(self.block_sep0(AXU) - self.S, (1.0/self.rho)*self.W)
-        Y1 = prox_sl1l2(self.block_sep1(AXU), 0.0,
+        Y1 = prox_sl1l2(self.block_sep1(AXU), self.dtype.type(0.0),
                         (self.lmbda/self.rho)*self.wl21,
                         axis=self.cri.axisC)
         self.Y = self.block_cat(Y0, Y1)
-- 
2.43.0


From 3edaa875effccd503facdd35a91074d5eb757b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:28 +0000
Subject: [PATCH 35/74] fix: pgm.bpdn.BPDN.reconstruct ignored its parameter

---
 sporco/pgm/bpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/pgm/bpdn.py b/sporco/pgm/bpdn.py
index 7b5f8e4..08844f6 100644
--- a/sporco/pgm/bpdn.py
+++ b/sporco/pgm/bpdn.py
@@ -239,7 +239,7 @@ class BPDN(pgm.PGM):
 
         if X is None:
             X = self.X
-        return self.D.dot(self.X)
+        return self.D.dot(X)
 
 
 
-- 
2.43.0


From c3a13e36b39d0f1a19b35f1ffb3d42ef003f4adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:28 +0000
Subject: [PATCH 36/74] fix: pgm.cmod.CnstrMOD.reconstruct referenced a
 non-existent attribute

---
 sporco/pgm/cmod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/pgm/cmod.py b/sporco/pgm/cmod.py
index db89512..c6f9894 100644
--- a/sporco/pgm/cmod.py
+++ b/sporco/pgm/cmod.py
@@ -229,7 +229,7 @@ class CnstrMOD(pgm.PGM):
 
         if X is None:
             X = self.X
-        return self.D.dot(self.X)
+        return X.dot(self.Z)
 
 
 
-- 
2.43.0


From a4e530ca779b8164be4ec2c80b5acf6c08ed8d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:17 +0000
Subject: [PATCH 37/74] fix: weighted and masked PGM classes ignored the
 weights in hessian_f

---
 sporco/pgm/bpdn.py  |  7 +++++++
 sporco/pgm/cbpdn.py | 16 ++++++++++++++++
 sporco/pgm/ccmod.py | 17 +++++++++++++++++
 sporco/pgm/cmod.py  |  7 +++++++
 4 files changed, 47 insertions(+)

diff --git a/sporco/pgm/bpdn.py b/sporco/pgm/bpdn.py
index 08844f6..ef99126 100644
--- a/sporco/pgm/bpdn.py
+++ b/sporco/pgm/bpdn.py
@@ -359,6 +359,13 @@ class WeightedBPDN(BPDN):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        return self.D.T.dot(self.W * self.D.dot(V))
+
+
+
     def obfn_f(self, X=None):
         r"""Compute data fidelity term :math:`(1/2) \| D \mathbf{x} -
         \mathbf{s} \|_W^2`.
diff --git a/sporco/pgm/cbpdn.py b/sporco/pgm/cbpdn.py
index 2941724..b3751d7 100644
--- a/sporco/pgm/cbpdn.py
+++ b/sporco/pgm/cbpdn.py
@@ -479,6 +479,22 @@ class ConvBPDNMask(ConvBPDN):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V in Fourier domain."""
+
+        DV = irfftn(inner(self.Df, V, axis=self.cri.axisM), self.cri.Nv,
+                    self.cri.axisN)
+        hessfv = np.conj(self.Df) * rfftn((self.W**2) * DV, self.cri.Nv,
+                                          self.cri.axisN)
+
+        # Multiple channel signal, multiple channel dictionary
+        if self.cri.Cd > 1:
+            hessfv = np.sum(hessfv, axis=self.cri.axisC, keepdims=True)
+
+        return hessfv
+
+
+
     def obfn_dfd(self):
         r"""Compute data fidelity term :math:`(1/2) \| W (\sum_m
         \mathbf{d}_m * \mathbf{x}_{m} - \mathbf{s}) \|_2^2`
diff --git a/sporco/pgm/ccmod.py b/sporco/pgm/ccmod.py
index 2059b28..db67ad8 100644
--- a/sporco/pgm/ccmod.py
+++ b/sporco/pgm/ccmod.py
@@ -576,6 +576,23 @@ class ConvCnstrMODMask(ConvCnstrMOD):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V in Fourier domain."""
+
+        ZV = irfftn(inner(self.Zf, V, axis=self.cri.axisM), self.cri.Nv,
+                    self.cri.axisN)
+        hessfv = inner(np.conj(self.Zf), rfftn(
+            (self.W**2) * ZV, self.cri.Nv, self.cri.axisN),
+            axis=self.cri.axisK)
+
+        # Multiple channel signal, single channel dictionary
+        if self.cri.C > 1 and self.cri.Cd == 1:
+            hessfv = np.sum(hessfv, axis=self.cri.axisC, keepdims=True)
+
+        return hessfv
+
+
+
     def obfn_dfd(self):
         r"""Compute data fidelity term :math:`(1/2) \sum_k \| W (\sum_m
         \mathbf{d}_m * \mathbf{x}_{k,m} - \mathbf{s}_k) \|_2^2`
diff --git a/sporco/pgm/cmod.py b/sporco/pgm/cmod.py
index c6f9894..2178d73 100644
--- a/sporco/pgm/cmod.py
+++ b/sporco/pgm/cmod.py
@@ -325,6 +325,13 @@ class WeightedCnstrMOD(CnstrMOD):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        return (self.W * V.dot(self.Z)).dot(self.Z.T)
+
+
+
     def obfn_f(self, X=None):
         r"""Compute data fidelity term :math:`(1/2) \| D \mathbf{x} -
         \mathbf{s} \|_W^2`.
-- 
2.43.0


From 055561f779ce3c6536426c0afbed42b52430e28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:21 +0000
Subject: [PATCH 38/74] fix: backtracking of masked PGM classes used
 inconsistent terms in DFT domain

---
 sporco/pgm/cbpdn.py | 25 ++++++++++++++++++++-----
 sporco/pgm/ccmod.py | 25 ++++++++++++++++++++-----
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/sporco/pgm/cbpdn.py b/sporco/pgm/cbpdn.py
index b3751d7..402895a 100644
--- a/sporco/pgm/cbpdn.py
+++ b/sporco/pgm/cbpdn.py
@@ -510,9 +510,9 @@ class ConvBPDNMask(ConvBPDN):
     def obfn_f(self, Xf=None):
         r"""Compute data fidelity term :math:`(1/2) \| W (\sum_m
         \mathbf{d}_m * \mathbf{x}_{m} - \mathbf{s}) \|_2^2`.
-        This is used for backtracking. Since the backtracking is
-        computed in the DFT, it is important to preserve the
-        DFT scaling.
+        This is used for backtracking. Since the mask is applied in the
+        spatial domain, the terms of the quadratic approximation used in
+        backtracking are also computed in the spatial domain.
         """
 
         if Xf is None:
@@ -520,6 +520,21 @@ class ConvBPDNMask(ConvBPDN):
 
         Rf = self.eval_Rf(Xf)
         R = irfftn(Rf, self.cri.Nv, self.cri.axisN)
-        WRf = rfftn(self.W * R, self.cri.Nv, self.cri.axisN)
 
-        return 0.5 * np.linalg.norm(WRf.flatten(), 2)**2
+        return 0.5 * np.linalg.norm((self.W * R).ravel(), 2)**2
+
+
+
+    def eval_Dxy(self):
+        """Evaluate difference of state and auxiliary state in spatial
+        domain."""
+
+        return irfftn(self.Xf - self.Yf, self.cri.Nv, self.cri.axisN)
+
+
+
+    def eval_linear_approx(self, Dxy, gradY):
+        r"""Compute term :math:`\langle \nabla f(\mathbf{y}),
+        \mathbf{x} - \mathbf{y} \rangle` in spatial domain."""
+
+        return np.sum(Dxy * irfftn(gradY, self.cri.Nv, self.cri.axisN))
diff --git a/sporco/pgm/ccmod.py b/sporco/pgm/ccmod.py
index db67ad8..2645a4f 100644
--- a/sporco/pgm/ccmod.py
+++ b/sporco/pgm/ccmod.py
@@ -608,9 +608,9 @@ class ConvCnstrMODMask(ConvCnstrMOD):
     def obfn_f(self, Xf=None):
         r"""Compute data fidelity term :math:`(1/2) \sum_k \| W (\sum_m
         \mathbf{d}_m * \mathbf{x}_{k,m} - \mathbf{s}_k) \|_2^2`.
-        This is used for backtracking. Since the backtracking is
-        computed in the DFT, it is important to preserve the
-        DFT scaling.
+        This is used for backtracking. Since the mask is applied in the
+        spatial domain, the terms of the quadratic approximation used in
+        backtracking are also computed in the spatial domain.
         """
 
         if Xf is None:
@@ -618,6 +618,21 @@ class ConvCnstrMODMask(ConvCnstrMOD):
 
         Rf = self.eval_Rf(Xf)
         R = irfftn(Rf, self.cri.Nv, self.cri.axisN)
-        WRf = rfftn(self.W * R, self.cri.Nv, self.cri.axisN)
 
-        return 0.5 * np.linalg.norm(WRf.flatten(), 2)**2
+        return 0.5 * np.linalg.norm((self.W * R).ravel(), 2)**2
+
+
+
+    def eval_Dxy(self):
+        """Evaluate difference of state and auxiliary state in spatial
+        domain."""
+
+        return irfftn(self.Xf - self.Yf, self.cri.Nv, self.cri.axisN)
+
+
+
+    def eval_linear_approx(self, Dxy, gradY):
+        r"""Compute term :math:`\langle \nabla f(\mathbf{y}),
+        \mathbf{x} - \mathbf{y} \rangle` in spatial domain."""
+
+        return np.sum(Dxy * irfftn(gradY, self.cri.Nv, self.cri.axisN))
-- 
2.43.0


From 496d6a54903f4b6e360900aaf369eacbc66003a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:43 +0000
Subject: [PATCH 39/74] fix: PGMDFT with Monotone enabled returned the rejected
 iterate

---
 sporco/pgm/pgm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 0f25ea5..b5461ca 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -805,6 +805,7 @@ class PGMDFT(PGM):
             if self.objfn_prev[0] < self.objfn[0]:
                 # If increment on objective function
                 # revert to previous iterate
+                self.X[:] = self.Xprv
                 self.Xf = self.Xfprv.copy()
                 self.objfn = self.objfn_prev
 
@@ -836,6 +837,8 @@ class PGMDFT(PGM):
         """Store previous X and Y in frequency domain."""
 
         self.Xfprv = self.Xf.copy()
+        if self.opt['Monotone']:
+            self.Xprv = self.X.copy()
         if (not self.opt['FastSolve'] or isinstance(self.backtrack,
                                                     BacktrackRobust)):
             self.Yfprv = self.Yf.copy()
-- 
2.43.0


From 7ed8a0def83518a59dc31c41ae34267732dbe5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:43 +0000
Subject: [PATCH 40/74] fix: PGM solvers sharing an options object shared
 backtracking and step size state

---
 sporco/pgm/pgm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index b5461ca..fe564f3 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -242,8 +242,10 @@ class PGM(IterativeSolver):
         self.set_attr('L', opt['L'], dval=1.0, dtype=self.dtype)
 
         # Configure policy for step size
+        # (the policy object has internal state and must not be shared with
+        # other solvers constructed with the same options object).
         # Step size policy is turned off if Backtrack is enabled
-        self.stepsizepolicy = self.opt['StepSizePolicy']
+        self.stepsizepolicy = copy.deepcopy(self.opt['StepSizePolicy'])
         if self.opt['Backtrack'] is not None:
             self.stepsizepolicy = None
 
@@ -264,7 +266,7 @@ class PGM(IterativeSolver):
         self.F = None
         self.Q = None
         self.iterBTrack = None
-        self.backtrack = self.opt['Backtrack']
+        self.backtrack = copy.deepcopy(self.opt['Backtrack'])
 
         self.Y = None
 
-- 
2.43.0


From 8ebdb7ad23c8cdeff511ddfa7bf8881f6b64f55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 41/74] fix: PGM with Monotone enabled reported objective of
 initial point for first iteration

---
 sporco/pgm/pgm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index fe564f3..9ddd1e8 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -420,6 +420,8 @@ class PGM(IterativeSolver):
                 # revert to previous iterate
                 self.X = self.Xprv.copy()
                 self.objfn = self.objfn_prev
+        elif self.opt['Monotone']:
+            self.objfn = self.eval_objfn()
 
         return grad
 
@@ -810,6 +812,8 @@ class PGMDFT(PGM):
                 self.X[:] = self.Xprv
                 self.Xf = self.Xfprv.copy()
                 self.objfn = self.objfn_prev
+        elif self.opt['Monotone']:
+            self.objfn = self.eval_objfn()
 
         return gradf
 
-- 
2.43.0


From b83d99b7cb9d0be80f90aac79bf9e5b73173553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:12 +0000
Subject: [PATCH 42/74] fix: ConvCnstrMODMaskDcpl_Consensus did not rescale
 additional dual variable on change of rho

---
 sporco/admm/ccmodmd.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sporco/admm/ccmodmd.py b/sporco/admm/ccmodmd.py
index 7bf82bb..3355c24 100644
--- a/sporco/admm/ccmodmd.py
+++ b/sporco/admm/ccmodmd.py
@@ -979,6 +979,19 @@ class ConvCnstrMODMaskDcpl_Consensus(ccmod.ConvCnstrMOD_Consensus):
 
 
 
+    def update_rho(self, k, r, s):
+        """Automatic rho adjustment. The parent class method is overridden
+        to ensure that the additional scaled dual variable is rescaled
+        together with the baseline scaled dual variable.
+        """
+
+        rho = self.rho
+        super(ConvCnstrMODMaskDcpl_Consensus, self).update_rho(k, r, s)
+        if self.rho != rho:
+            self.U1 *= self.dtype.type(rho / self.rho)
+
+
+
     def compute_residuals(self):
         """Compute residuals and stopping thresholds. The parent class
         method is overridden to ensure that the residual calculations
-- 
2.43.0


From eeebe28caef78a71917fb7410401db8b0b0cc8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:12 +0000
Subject: [PATCH 43/74] fix: ConvCnstrMODMaskDcpl_Consensus stopping tolerances
 ignored block replication and additional constraints

---
 sporco/admm/ccmodmd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/ccmodmd.py b/sporco/admm/ccmodmd.py
index 3355c24..472c9ed 100644
--- a/sporco/admm/ccmodmd.py
+++ b/sporco/admm/ccmodmd.py
@@ -873,6 +873,9 @@ class ConvCnstrMODMaskDcpl_Consensus(ccmod.ConvCnstrMOD_Consensus):
         self.U1 = np.zeros(self.S.shape, dtype=self.dtype)
         self.YU1 = empty_aligned(self.S.shape, dtype=self.dtype)
 
+        # Include the additional constraints in the number of constraints
+        self.Nc += self.S.size
+
 
 
     def setcoef(self, Z):
@@ -1017,7 +1020,7 @@ class ConvCnstrMODMaskDcpl_Consensus(ccmod.ConvCnstrMOD_Consensus):
         # straightforward
         nAX = np.sqrt(np.linalg.norm(self.AXnr)**2 +
                       np.linalg.norm(self.AX1nr)**2)
-        nY = np.sqrt(np.linalg.norm(self.Y)**2 +
+        nY = np.sqrt(self.Nb * np.linalg.norm(self.Y)**2 +
                      np.linalg.norm(self.Y1)**2)
         rn = max(nAX, nY, np.linalg.norm(self.S))
 
-- 
2.43.0


From 933cdceab88571c1329039c019d869414d2aa809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:54 +0000
Subject: [PATCH 44/74] fix: dictionary learning with AccurateDFid ignored the
 weighting of the l1 term in the reported objective

---
 sporco/dictlrn/bpdndl.py    | 2 +-
 sporco/dictlrn/cbpdndl.py   | 2 +-
 sporco/dictlrn/cbpdndlmd.py | 2 +-
 sporco/dictlrn/wbpdndl.py   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sporco/dictlrn/bpdndl.py b/sporco/dictlrn/bpdndl.py
index fc6d67b..06bf2b4 100644
--- a/sporco/dictlrn/bpdndl.py
+++ b/sporco/dictlrn/bpdndl.py
@@ -200,7 +200,7 @@ class BPDNDictLearn(dictlrn.DictLearn):
             X = self.xstep.var_y()
             S = self.xstep.S
             dfd = 0.5*np.linalg.norm((D.dot(X) - S))**2
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1, ObjFun=dfd+self.xstep.lmbda*rl1)
         else:
             return None
diff --git a/sporco/dictlrn/cbpdndl.py b/sporco/dictlrn/cbpdndl.py
index 33eacd9..421bf77 100644
--- a/sporco/dictlrn/cbpdndl.py
+++ b/sporco/dictlrn/cbpdndl.py
@@ -517,7 +517,7 @@ class ConvBPDNDictLearn(dictlrn.DictLearn):
             Ef = inner(Df, Xf, axis=self.xstep.cri.axisM) - Sf
             dfd = rfl2norm2(Ef, self.xstep.S.shape,
                             axis=self.xstep.cri.axisN) / 2.0
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1,
                         ObjFun=dfd + self.xstep.lmbda * rl1)
         else:
diff --git a/sporco/dictlrn/cbpdndlmd.py b/sporco/dictlrn/cbpdndlmd.py
index a5b4b07..4832f87 100644
--- a/sporco/dictlrn/cbpdndlmd.py
+++ b/sporco/dictlrn/cbpdndlmd.py
@@ -533,7 +533,7 @@ class ConvBPDNMaskDictLearn(dictlrn.DictLearn):
                 X = self.xstep.getcoef()
             else:
                 X = self.xstep.var_y1()
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1,
                         ObjFun=dfd + self.xstep.lmbda * rl1)
         else:
diff --git a/sporco/dictlrn/wbpdndl.py b/sporco/dictlrn/wbpdndl.py
index 27b34e2..148780f 100644
--- a/sporco/dictlrn/wbpdndl.py
+++ b/sporco/dictlrn/wbpdndl.py
@@ -204,7 +204,7 @@ class WeightedBPDNDictLearn(dictlrn.DictLearn):
             X = self.xstep.var_x()
             S = self.xstep.S
             dfd = 0.5*np.linalg.norm(np.sqrt(self.W) * (D.dot(X) - S))**2
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1, ObjFun=dfd+self.xstep.lmbda*rl1)
         else:
             return None
-- 
2.43.0


From 69da91639a467d907f7d0ab4c12140941bc0766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:50 +0000
Subject: [PATCH 45/74] fix: online dictionary learning failed for dictionaries
 with singleton axes

---
 sporco/dictlrn/onlinecdl.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index f17a802..e3fdd0c 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -191,6 +191,9 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
         ds = DictionarySize(self.dsz, dimN)
         dimCd = ds.ndim - dimN - 1
         D0 = stdformD(D0, ds.nchn, ds.nflt, dimN).astype(self.dtype)
+        # Dictionary shape required by sparse coding solver (singleton
+        # filter and channel axes must be retained)
+        self.xdshp = D0.shape[0:dimN] + (ds.nchn,) * dimCd + (ds.nflt,)
         self.D = Pcn(D0, self.dsz, (), dimN, dimCd, crp=True,
                         zm=opt['ZeroMean'])
         self.Dprv = self.D.copy()
@@ -278,7 +281,7 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
             self.xstep_itstat = None
         else:
             # Create X update object (external representation is expected!)
-            xstep = cbpdn.ConvBPDN(self.D.squeeze(), S, lmbda,
+            xstep = cbpdn.ConvBPDN(self.D.reshape(self.xdshp), S, lmbda,
                                    self.opt['CBPDN'], dimK=dimK,
                                    dimN=self.cri.dimN)
             xstep.solve()
@@ -560,9 +563,9 @@ class OnlineConvBPDNMaskDictLearn(OnlineConvBPDNDictLearn):
             self.xstep_itstat = None
         else:
             # Create X update object (external representation is expected!)
-            xstep = cbpdn.ConvBPDNMaskDcpl(self.D.squeeze(), S, lmbda, W,
-                                           self.opt['CBPDN'], dimK=dimK,
-                                           dimN=self.cri.dimN)
+            xstep = cbpdn.ConvBPDNMaskDcpl(self.D.reshape(self.xdshp), S,
+                                           lmbda, W, self.opt['CBPDN'],
+                                           dimK=dimK, dimN=self.cri.dimN)
             xstep.solve()
             self.Sf = rfftn(S.reshape(self.cri.shpS), self.cri.Nv,
                                self.cri.axisN)
-- 
2.43.0


From c89801a61024854b7cdaed88f982ada753c7a359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:50 +0000
Subject: [PATCH 46/74] fix: online dictionary learning gradient wrong for
 single-channel dictionary with multi-channel signal

---
 sporco/dictlrn/onlinecdl.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index e3fdd0c..b3a2f75 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -294,17 +294,6 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
     def setcoef(self, Z):
         """Set coefficient array."""
 
-        # If the dictionary has a single channel but the input (and
-        # therefore also the coefficient map array) has multiple
-        # channels, the channel index and multiple image index have
-        # the same behaviour in the dictionary update equation: the
-        # simplest way to handle this is to just reshape so that the
-        # channels also appear on the multiple image index.
-        if self.cri.Cd == 1 and self.cri.C > 1:
-            Z = Z.reshape(self.cri.Nv + (1,) + (self.cri.Cx*self.cri.K,) +
-                          (self.cri.M,))
-            if Z.shape != self.Z.shape:
-                self.Z = empty_aligned(Z.shape, self.dtype)
         self.Z[:] = np.asarray(Z, dtype=self.dtype)
         self.Zf = rfftn(self.Z, self.cri.Nv, self.cri.axisN)
 
-- 
2.43.0


From 0308e535d7243aa7d73ea073a9714961ec0c0d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:50 +0000
Subject: [PATCH 47/74] fix: online dictionary learning did not support change
 of batch size

---
 sporco/dictlrn/onlinecdl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index b3a2f75..0c7d489 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -248,9 +248,10 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
         """Initalise variables required for sparse coding and dictionary
         update for training data `S`."""
 
-        Nv = S.shape[0:self.dimN]
-        if self.cri is None or Nv != self.cri.Nv:
-            self.cri = CDU_ConvRepIndexing(self.dsz, S, dimK, self.dimN)
+        cri = CDU_ConvRepIndexing(self.dsz, S, dimK, self.dimN)
+        if self.cri is None or cri.shpX != self.cri.shpX or \
+           cri.shpS != self.cri.shpS:
+            self.cri = cri
             if self.opt['CUDA_CBPDN']:
                 if self.cri.Cd > 1 or self.cri.Cx > 1:
                     raise ValueError('CUDA CBPDN solver can only be used for '
-- 
2.43.0


From 5bd6ef79efacd6fb5c9a5e2d275ef61264680f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:50 +0000
Subject: [PATCH 48/74] fix: masked online dictionary learning gradient
 inconsistent with functional for non-binary mask

---
 sporco/dictlrn/onlinecdl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index 0c7d489..0086628 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -571,9 +571,10 @@ class OnlineConvBPDNMaskDictLearn(OnlineConvBPDNDictLearn):
 
         # Compute residual X D - S in frequency domain
         Ryf = inner(self.Zf, self.Df, axis=self.cri.axisM) - self.Sf
-        # Transform to spatial domain, apply mask, and transform back to
+        # Transform to spatial domain, apply squared mask (data fidelity
+        # term is (1/2) || W (X D - S) ||^2), and transform back to
         # frequency domain
-        Ryf[:] = rfftn(W * irfftn(Ryf, self.cri.Nv, self.cri.axisN),
+        Ryf[:] = rfftn(W**2 * irfftn(Ryf, self.cri.Nv, self.cri.axisN),
                           None, self.cri.axisN)
         # Compute gradient
         gradf = inner(np.conj(self.Zf), Ryf, axis=self.cri.axisK)
-- 
2.43.0


From 65ac89f0781215ea8ec9ffc68262a413f6a46935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:29 +0000
Subject: [PATCH 49/74] fix: ParConvBPDN statistics and primary variable were
 those of the following iteration

---
 sporco/admm/parcbpdn.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index 7d3578f..f2eaf00 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -61,6 +61,7 @@ mp_S = None  # Training data array
 mp_Df = None  # Dictionary variable (in DFT domain) used by X step
 mp_X = None  # Sparsity variable
 mp_Xnr = None  # Sparsity variable
+mp_Xst = None  # Sparsity variable corresponding to completed iteration
 mp_Y0 = None  # Split variable DX=Y0
 mp_Y1 = None  # Split variable X=Y1
 mp_U0 = None  # Lagrange multiplier of DX=Y0
@@ -85,6 +86,7 @@ mp_sy1 = None  # Dual residual components of Y1
 mp_nrmAx = None  # Components of norm of AX for computing epsilon primal
 mp_nrmBy = None  # Components of norm of BY for computing epsilon primal
 mp_nrmu = None  # Components of norm of U for computing epsilon dual
+mp_rsdl = None  # Flag indicating whether residual components are computed
 
 
 def mpraw_as_np(shape, dtype):
@@ -312,6 +314,11 @@ def par_final_stepgrp(i):
     par_y1step(i)
     par_u0step(i)
     par_u1step(i)
+    # These depend on the primary variable of the iteration completed by
+    # this function, which is overwritten by par_initial_stepgrp
+    mp_Xst[mp_grp[i]:mp_grp[i+1]] = mp_Xnr[mp_grp[i]:mp_grp[i+1]]
+    if mp_rsdl:
+        par_compute_residuals(i)
 
 
 
@@ -643,6 +650,10 @@ class ParConvBPDN(GenericConvBPDN):
         shp_X = list(mp_X.shape)
         global mp_Xnr
         mp_Xnr = mpraw_as_np(mp_X.shape, mp_X.dtype)
+        global mp_Xst
+        mp_Xst = mpraw_as_np(mp_X.shape, mp_X.dtype)
+        global mp_rsdl
+        mp_rsdl = self.opt['AutoRho', 'Enabled'] or not self.opt['FastSolve']
         global mp_Y0
         shp_Y0 = shp_X[:]
         shp_Y0[0] = self.ngrp
@@ -780,10 +791,10 @@ class ParConvBPDN(GenericConvBPDN):
             else:
                 self.distribute(par_stepgrp, mp_ngrp)
 
-            # Compute the residual variables
+            # Combine the residual components computed by
+            # par_final_stepgrp
             self.timer.stop('solve_wo_rsdl')
             if self.opt['AutoRho', 'Enabled'] or not self.opt['FastSolve']:
-                self.distribute(par_compute_residuals, mp_ngrp)
                 r = np.sqrt(np.sum(mp_ry0) + np.sum(mp_ry1))
                 s = np.sqrt(np.sum(mp_sy0) + np.sum(mp_sy1))
 
@@ -829,7 +840,7 @@ class ParConvBPDN(GenericConvBPDN):
         self.display_end(nsep)
 
         self.Y = np.moveaxis(mp_Y1, mp_axisM, self.cri.axisM)
-        self.X = np.moveaxis(mp_X, mp_axisM, self.cri.axisM)
+        self.X = np.moveaxis(mp_Xst, mp_axisM, self.cri.axisM)
 
         self.terminate_pool()
 
@@ -886,7 +897,7 @@ class ParConvBPDN(GenericConvBPDN):
         depending on the ``gEvalY`` option value.
         """
 
-        return mp_Y1 if self.opt['gEvalY'] else mp_X
+        return mp_Y1 if self.opt['gEvalY'] else mp_Xst
 
 
 
@@ -894,7 +905,7 @@ class ParConvBPDN(GenericConvBPDN):
         """Variable to be evaluated in computing :meth:`ADMM.obfn_f`,
         depending on the ``fEvalX`` option value.
         """
-        return mp_X if self.opt['fEvalX'] else mp_Y1
+        return mp_Xst if self.opt['fEvalX'] else mp_Y1
 
 
 
-- 
2.43.0


From 86744feb5a7c59fbcc7e5600c5f46393c1f81fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:58 +0000
Subject: [PATCH 50/74] fix: constructing a second parallel solver corrupted
 the state of existing ones

---
 sporco/admm/parcbpdn.py     | 73 +++++++++++++++++++++++++++++++++++++
 sporco/dictlrn/prlcnscdl.py | 47 ++++++++++++++++++++++++
 2 files changed, 120 insertions(+)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index f2eaf00..8e6334f 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -131,6 +131,60 @@ def init_mpraw(mpv, npv):
 
 
 
+def get_mpvars():
+    """Get the values of all of the global variables describing a problem
+    so that they can be restored by :func:`set_mpvars` if they are
+    overwritten in initialising a solver object for another problem.
+
+    Returns
+    -------
+    mpv : dict
+      Dict mapping global variable names to their values
+    """
+
+    return {k: v for k, v in globals().items() if k.startswith('mp_')}
+
+
+
+def set_mpvars(mpv):
+    """Set the values of the global variables describing a problem.
+
+    Parameters
+    ----------
+    mpv : dict
+      Dict mapping global variable names to their values, as returned
+      by :func:`get_mpvars`
+    """
+
+    globals().update(mpv)
+
+
+
+def share_mpvars(mpv):
+    """Move the arrays in a dict of values of global variables into shared
+    memory.
+
+    Parameters
+    ----------
+    mpv : dict
+      Dict mapping global variable names to their values, as returned
+      by :func:`get_mpvars`
+
+    Returns
+    -------
+    mpvs : dict
+      Dict with same content as `mpv` but with shared memory arrays
+    """
+
+    mpvs = dict(mpv)
+    for k, v in mpv.items():
+        if isinstance(v, np.ndarray):
+            mpvs[k] = mpraw_as_np(v.shape, v.dtype)
+            mpvs[k][:] = v
+    return mpvs
+
+
+
 def par_xstep(i):
     r"""Minimise Augmented Lagrangian with respect to
     :math:`\mathbf{x}_{G_i}`, one of the disjoint problems of optimizing
@@ -735,6 +789,20 @@ class ParConvBPDN(GenericConvBPDN):
         global mp_nrmu
         mp_nrmu = mpraw_as_np((self.ngrp,), mp_X.dtype)
 
+        # Retain references to the global variables of this problem since
+        # they are replaced if another object is initialised
+        self.mpvars = get_mpvars()
+
+
+
+    def __setstate__(self, state):
+        """Restore state when unpickling, moving arrays represented by
+        the global variables back into shared memory.
+        """
+
+        self.__dict__.update(state)
+        self.mpvars = share_mpvars(self.mpvars)
+
 
 
     def solve(self):
@@ -768,6 +836,7 @@ class ParConvBPDN(GenericConvBPDN):
         global mp_Y0old
         global mp_Y1old
 
+        set_mpvars(self.mpvars)
         self.init_pool()
 
         fmtstr, nsep = self.display_start()
@@ -897,6 +966,7 @@ class ParConvBPDN(GenericConvBPDN):
         depending on the ``gEvalY`` option value.
         """
 
+        set_mpvars(self.mpvars)
         return mp_Y1 if self.opt['gEvalY'] else mp_Xst
 
 
@@ -905,6 +975,7 @@ class ParConvBPDN(GenericConvBPDN):
         """Variable to be evaluated in computing :meth:`ADMM.obfn_f`,
         depending on the ``fEvalX`` option value.
         """
+        set_mpvars(self.mpvars)
         return mp_Xst if self.opt['fEvalX'] else mp_Y1
 
 
@@ -913,6 +984,7 @@ class ParConvBPDN(GenericConvBPDN):
         r"""Compute regularisation term, :math:`\| x \|_1`, and
         contribution to objective function.
         """
+        set_mpvars(self.mpvars)
         l1 = np.sum(mp_wl1*np.abs(self.obfn_gvar()))
         return (self.lmbda*l1, l1)
 
@@ -922,6 +994,7 @@ class ParConvBPDN(GenericConvBPDN):
         r"""Compute data fidelity term :math:`(1/2) \| W \left( \sum_m
         \mathbf{d}_m * \mathbf{x}_m - \mathbf{s} \right) \|_2^2`.
         """
+        set_mpvars(self.mpvars)
         XF = rfftn(self.obfn_fvar(), mp_Nv, mp_axisN)
         DX = np.moveaxis(irfftn(sl.inner(mp_Df, XF, mp_axisM),
                                    mp_Nv, mp_axisN), mp_axisM,
diff --git a/sporco/dictlrn/prlcnscdl.py b/sporco/dictlrn/prlcnscdl.py
index 913beee..a150914 100644
--- a/sporco/dictlrn/prlcnscdl.py
+++ b/sporco/dictlrn/prlcnscdl.py
@@ -131,6 +131,37 @@ def init_mpraw(mpv, npv):
 
 
 
+def get_mpvars():
+    """Get the values of all of the global variables describing a problem
+    so that they can be restored by :func:`set_mpvars` if they are
+    overwritten in initialising a solver object for another problem.
+
+    Returns
+    -------
+    mpv : dict
+      Dict mapping global variable names to their values
+    """
+
+    return {k: v for k, v in globals().items()
+            if k.startswith('mp_') or k in ('real_dtype', 'fftn', 'ifftn',
+                                            'fl2norm2')}
+
+
+
+def set_mpvars(mpv):
+    """Set the values of the global variables describing a problem.
+
+    Parameters
+    ----------
+    mpv : dict
+      Dict mapping global variable names to their values, as returned
+      by :func:`get_mpvars`
+    """
+
+    globals().update(mpv)
+
+
+
 def cbpdn_setdict():
     """Set the dictionary for the cbpdn stage. There are no parameters
     or return values because all inputs and outputs are from and to
@@ -490,6 +521,9 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
         global mp_D_U
         init_mpraw('mp_D_U', np.moveaxis(self.dstep.U, -1, 0))
 
+        # Retain references to the global variables of this problem since
+        # they are replaced if another object is initialised
+        self.mpvars = get_mpvars()
 
 
 
@@ -497,6 +531,7 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
         """Do a single iteration over all cbpdn and ccmod steps. Those that
         are not coupled on the K axis are performed in parallel."""
 
+        set_mpvars(self.mpvars)
         # If the nproc parameter of __init__ is zero, just iterate
         # over the K consensus instances instead of using
         # multiprocessing to do the computations in parallel. This is
@@ -536,6 +571,7 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
           value and related iteration statistics
         """
 
+        set_mpvars(self.mpvars)
         # Construct tuple of status display column titles and set status
         # display strings
         hdrtxt = ['Itn', 'Fnc', 'DFid', u('Regℓ1')]
@@ -605,6 +641,7 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
         """
 
         global mp_D_Y
+        set_mpvars(self.mpvars)
         D = mp_D_Y
         if crop:
             D = cr.bcrop(D, self.dstep.cri.dsz, self.dstep.cri.dimN)
@@ -616,6 +653,7 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
         """Get final coefficient map array."""
 
         global mp_Z_Y
+        set_mpvars(self.mpvars)
         return np.swapaxes(mp_Z_Y, 0, self.xstep.cri.axisK+1)[0]
 
 
@@ -623,6 +661,7 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
     def evaluate(self):
         """Evaluate functional value of previous iteration."""
 
+        set_mpvars(self.mpvars)
         X = mp_Z_Y
         Xf = mp_Zf
         Df = mp_Df
@@ -1056,6 +1095,9 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
         init_mpraw('mp_D_U1',
                    np.moveaxis(self.dstep.U1, -2, 0)[..., np.newaxis])
 
+        # Retain references to the global variables of this problem since
+        # they are replaced if another object is initialised
+        self.mpvars = get_mpvars()
 
 
 
@@ -1063,6 +1105,7 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
         """Do a single iteration over all cbpdn and ccmod steps. Those
         that are not coupled on the K axis are performed in parallel."""
 
+        set_mpvars(self.mpvars)
         # If the nproc parameter of __init__ is zero, just iterate
         # over the K consensus instances instead of using
         # multiprocessing to do the computations in parallel. This is
@@ -1102,6 +1145,7 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
           value and related iteration statistics
         """
 
+        set_mpvars(self.mpvars)
         # Construct tuple of status display column titles and set status
         # display strings
         hdrtxt = ['Itn', 'Fnc', 'DFid', u('Regℓ1')]
@@ -1171,6 +1215,7 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
         """
 
         global mp_D_Y0
+        set_mpvars(self.mpvars)
         D = mp_D_Y0
         if crop:
             D = cr.bcrop(D, self.dstep.cri.dsz, self.dstep.cri.dimN)
@@ -1182,6 +1227,7 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
         """Get final coefficient map array."""
 
         global mp_Z_Y1
+        set_mpvars(self.mpvars)
         return np.swapaxes(mp_Z_Y1, 0, self.xstep.cri.axisK+1)[0]
 
 
@@ -1189,6 +1235,7 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
     def evaluate(self):
         """Evaluate functional value of previous iteration."""
 
+        set_mpvars(self.mpvars)
         if self.opt['AccurateDFid']:
             DX = self.reconstruct()
             W = self.dstep.W
-- 
2.43.0


From 73e1ef12cd2163f44203258e7cbd07255832e507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:30 +0000
Subject: [PATCH 51/74] fix: mpiutil.grid_search with more processes than grid
 points, integer and single precision function values

---
 sporco/mpiutil.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sporco/mpiutil.py b/sporco/mpiutil.py
index 2e0c3e0..bc6547b 100644
--- a/sporco/mpiutil.py
+++ b/sporco/mpiutil.py
@@ -132,6 +132,13 @@ def grid_search(fn, grid, comm=None, mpidtype=None, fmin=True):
     begin, end = _get_rank_limits(comm, iterlen)
     rankgrid = (afprm[begin:end, :])
     rankfval = np.asarray(list(map(fn, rankgrid)))
+    # Buffers used for communication have float64 entries
+    if np.isrealobj(rankfval):
+        rankfval = rankfval.astype(np.float64)
+    # Processes with no assigned grid points have to obtain the shape of
+    # the function value from the first process, which is never one of them
+    fnshp = comm.bcast(rankfval.shape[1:], root=0)
+    rankfval = rankfval.reshape((end - begin,) + fnshp)
 
     if rankfval.ndim == 1:  # Function with a scalar return value
         fval = np.empty(afprm.shape[0])
-- 
2.43.0


From df1a8279a245f306dee50e8e54ceb88552a109e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:53 +0000
Subject: [PATCH 52/74] fix: is_complex_dtype for type objects, so that
 signal.gradient_filters works with its default dtype

---
 sporco/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/fft.py b/sporco/fft.py
index ab1ed28..930a8a1 100644
--- a/sporco/fft.py
+++ b/sporco/fft.py
@@ -55,7 +55,7 @@ def is_complex_dtype(dtype):
       True if the dtype is complex, otherwise False
     """
 
-    return dtype.kind == 'c'
+    return np.dtype(dtype).kind == 'c'
 
 
 
-- 
2.43.0


From 4588c7d6b7dea8c20b58a545bd54cea562913406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:53 +0000
Subject: [PATCH 53/74] fix: signal.rgb2gray for integer images and for arrays
 of images

---
 sporco/signal.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index febff30..fafeeb0 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -106,9 +106,12 @@ def rgb2gray(rgb):
       Grayscale image as Nr x Nc or Nr x Nc x K array
     """
 
-    w = np.array([0.299, 0.587, 0.114], dtype=rgb.dtype)[np.newaxis,
-                                                         np.newaxis]
-    return np.sum(w * rgb, axis=2)
+    inexact = np.issubdtype(rgb.dtype, np.inexact)
+    dtype = rgb.dtype if inexact else np.float64
+    w = np.array([0.299, 0.587, 0.114], dtype=dtype)
+    w = w.reshape((1, 1, 3) + (1,) * (rgb.ndim - 3))
+    gry = np.sum(w * rgb, axis=2)
+    return gry if inexact else np.rint(gry).astype(rgb.dtype)
 
 
 
-- 
2.43.0


From 76af0ed6f2f748a6b7b590683fb759dcbc755751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:53 +0000
Subject: [PATCH 54/74] fix: signal.rndmask with an integer dtype

---
 sporco/signal.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index fafeeb0..6dc68ac 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -85,10 +85,9 @@ def rndmask(shp, frc, dtype=None):
       Mask image
     """
 
-    msk = np.asarray(np.random.uniform(-1.0, 1.0, shp), dtype=dtype)
-    msk[np.abs(msk) > frc] = 1.0
-    msk[np.abs(msk) < frc] = 0.0
-    return msk
+    msk = np.random.uniform(-1.0, 1.0, shp)
+    return np.asarray(np.abs(msk) > frc, dtype=np.float64 if dtype is None
+                      else dtype)
 
 
 
-- 
2.43.0


From ab3fa490992074477ac99633879dbfc2a8d4d024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:54 +0000
Subject: [PATCH 55/74] fix: metric.psnr and metric.bsnr with integer images

---
 sporco/metric.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sporco/metric.py b/sporco/metric.py
index 3a3c36c..9d63ac4 100644
--- a/sporco/metric.py
+++ b/sporco/metric.py
@@ -137,7 +137,7 @@ def psnr(vref, vcmp, rng=None):
     """
 
     if rng is None:
-        rng = np.abs(vref.max() - vref.min())
+        rng = np.float64(vref.max()) - np.float64(vref.min())
     dv = (rng + 0.0)**2
     with np.errstate(divide='ignore'):
         rt = dv / mse(vref, vcmp)
@@ -192,7 +192,12 @@ def bsnr(vblr, vnsy):
     """
 
     blrvar = np.var(vblr)
-    nsevar = np.var(vnsy - vblr)
+    if np.iscomplexobj(vblr) or np.iscomplexobj(vnsy):
+        dtype = np.complex128
+    else:
+        dtype = np.float64
+    nsevar = np.var(np.asarray(vnsy, dtype=dtype) -
+                    np.asarray(vblr, dtype=dtype))
     with np.errstate(divide='ignore'):
         rt = blrvar / nsevar
     return 10.0 * np.log10(rt)
-- 
2.43.0


From b87f0ea2f2720cd6ca2b5c89363a786c67067d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:48 +0000
Subject: [PATCH 56/74] fix: fft.rfl2norm2 with negative axes

---
 sporco/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/fft.py b/sporco/fft.py
index 930a8a1..c4b7374 100644
--- a/sporco/fft.py
+++ b/sporco/fft.py
@@ -473,7 +473,7 @@ def rfl2norm2(xf, xs, axis=(0, 1)):
     """
 
     scl = 1.0 / np.prod(np.array([xs[k] for k in axis]))
-    slc0 = (slice(None),) * axis[-1]
+    slc0 = (slice(None),) * (axis[-1] % xf.ndim)
     nrm0 = np.linalg.norm(xf[slc0 + (0,)])
     idx1 = (xs[axis[-1]] + 1) // 2
     nrm1 = np.linalg.norm(xf[slc0 + (slice(1, idx1),)])
-- 
2.43.0


From a8fe84b9db8ce338a1214b5491d4003c3310c5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:48 +0000
Subject: [PATCH 57/74] fix: util.netgetdata did not retry timeouts of the
 response

---
 sporco/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sporco/util.py b/sporco/util.py
index be39ecd..6252ee4 100644
--- a/sporco/util.py
+++ b/sporco/util.py
@@ -202,6 +202,9 @@ def netgetdata(url, maxtry=3, timeout=10):
             err = e
             if not isinstance(e.reason, socket.timeout):
                 raise
+        except socket.timeout as e:
+            # Timeout while waiting for, or reading, the response
+            err = urlerror.URLError(e)
     else:
         raise err
 
-- 
2.43.0


From 8c9448841e337097a1487b7661dda63c311249b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:23 +0000
Subject: [PATCH 58/74] fix: Fourier transforms over axis -2 after axis -1 (or
 vice versa) of arrays of the same shape

---
 sporco/fft.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/sporco/fft.py b/sporco/fft.py
index c4b7374..6f17f3d 100644
--- a/sporco/fft.py
+++ b/sporco/fft.py
@@ -196,6 +196,19 @@ def rfftn_empty_aligned(shape, axes, dtype, order='C', n=None):
 
 
 
+def _positive_axes(a, axes):
+    """Map negative axis indices to the equivalent positive ones.
+
+    The pyfftw cache identifies the axes of a transform by a hash which
+    does not distinguish between axes -1 and -2.
+    """
+
+    if axes is None:
+        return None
+    return tuple([ax + np.ndim(a) if ax < 0 else ax for ax in axes])
+
+
+
 def fftn(a, s=None, axes=None):
     """Multi-dimensional discrete Fourier transform.
 
@@ -220,7 +233,7 @@ def fftn(a, s=None, axes=None):
     """
 
     return pyfftw.interfaces.numpy_fft.fftn(
-        a, s=s, axes=axes, overwrite_input=False,
+        a, s=s, axes=_positive_axes(a, axes), overwrite_input=False,
         planner_effort=pyfftw_planner_effort, threads=pyfftw_threads)
 
 
@@ -249,7 +262,7 @@ def ifftn(a, s=None, axes=None):
     """
 
     return pyfftw.interfaces.numpy_fft.ifftn(
-        a, s=s, axes=axes, overwrite_input=False,
+        a, s=s, axes=_positive_axes(a, axes), overwrite_input=False,
         planner_effort=pyfftw_planner_effort, threads=pyfftw_threads)
 
 
@@ -278,7 +291,7 @@ def rfftn(a, s=None, axes=None):
     """
 
     return pyfftw.interfaces.numpy_fft.rfftn(
-        a, s=s, axes=axes, overwrite_input=False,
+        a, s=s, axes=_positive_axes(a, axes), overwrite_input=False,
         planner_effort=pyfftw_planner_effort, threads=pyfftw_threads)
 
 
@@ -310,7 +323,7 @@ def irfftn(a, s, axes=None):
     """
 
     return pyfftw.interfaces.numpy_fft.irfftn(
-        a, s=s, axes=axes, overwrite_input=False,
+        a, s=s, axes=_positive_axes(a, axes), overwrite_input=False,
         planner_effort=pyfftw_planner_effort, threads=pyfftw_threads)
 
 
-- 
2.43.0


From c57d47494132ef280a1ca18ba0dc885ac79c9a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:25 +0000
Subject: [PATCH 59/74] fix: numpy fallback of fft.ifftn for real input

---
 sporco/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/fft.py b/sporco/fft.py
index 6f17f3d..f87e154 100644
--- a/sporco/fft.py
+++ b/sporco/fft.py
@@ -637,7 +637,7 @@ if not have_pyfftw:
     fftn = _fftn
 
     def _ifftn(a, s=None, axes=None):
-        return  npfft.ifftn(a, s, axes).astype(a.dtype)
+        return  npfft.ifftn(a, s, axes).astype(complex_dtype(a.dtype))
     _ifftn.__doc__ = ifftn.__doc__
     ifftn = _ifftn
 
-- 
2.43.0


From 65b6202198f50e59ade6b09f12ede0a36cf4b96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:16 +0000
Subject: [PATCH 60/74] fix: residual normalisation terms of
 WeightedADMMConsensus

---
 sporco/admm/admm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/admm.py b/sporco/admm/admm.py
index babe48c..f70dcdd 100644
--- a/sporco/admm/admm.py
+++ b/sporco/admm/admm.py
@@ -1862,11 +1862,14 @@ class WeightedADMMConsensus(ADMMConsensus):
         # block replication introduced by multiplication by the B
         # including the alpha weighting factors
         return max((np.linalg.norm(np.sqrt(self.alphaxd) * AX),
-                    np.sqrt(np.sum(self.alpha**2)) * np.linalg.norm(Y)))
+                    np.sqrt(np.sum(self.alpha)) * np.linalg.norm(Y)))
 
 
 
     def rsdl_sn(self, U):
         """Compute dual residual normalisation term."""
 
-        return self.rho * np.linalg.norm(U)
+        # The dual residual normalisation term is ||A^T y^(k)||_2, where
+        # (as for the dual residual vector) A includes the alpha weighting
+        # factors
+        return self.rho * np.linalg.norm(self.alphaxd * U)
-- 
2.43.0


From f351ca1701818e0f89c230c8297e9ba7a946b73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:16 +0000
Subject: [PATCH 61/74] fix: dtype of working variable and weights in
 GenericPPPConsensus

---
 sporco/admm/ppp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/ppp.py b/sporco/admm/ppp.py
index 3366830..4ba1721 100644
--- a/sporco/admm/ppp.py
+++ b/sporco/admm/ppp.py
@@ -188,13 +188,14 @@ class GenericPPPConsensus(admm.WeightedADMMConsensus):
         # Set dtype attribute, default is np.float32
         self.set_dtype(opt, np.dtype(np.float32))
 
-        mu = np.array(mu, dtype=self.dtype)
+        # Weights are real, even when the working variable is complex
+        mu = np.array(mu, dtype=np.zeros((1,), dtype=self.dtype).real.dtype)
 
         super(GenericPPPConsensus, self).__init__(Nb, mu, xshape,
                                                    self.dtype, opt)
 
         # Initialise working variable
-        self.X = np.zeros(self.xshape)
+        self.X = np.zeros(self.xshape, dtype=self.dtype)
 
 
 
-- 
2.43.0


From 1d7ba9cce96623fdfb8faa4136fdc43d8fda24e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:24 +0000
Subject: [PATCH 62/74] fix: NumPy fallback of Cholesky solvers in sporco.cupy

---
 sporco/cupy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sporco/cupy/__init__.py b/sporco/cupy/__init__.py
index 50fb271..ba1169a 100644
--- a/sporco/cupy/__init__.py
+++ b/sporco/cupy/__init__.py
@@ -50,6 +50,7 @@ try:
 except Exception:
     # If cupy import or device access fails, import numpy to the same alias
     import numpy as cp
+    import scipy.linalg as cpxl
     # Flag indicating unsuccessful import
     have_cupy = False
     # Import appropriate versions of utility functions
-- 
2.43.0


From b7074134849c304fe006d4d7a5ab9eeca903fee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:59 +0000
Subject: [PATCH 63/74] fix: cupy_wrapper for functions returning tuples, and
 for current CuPy

---
 sporco/cupy/_cp_util.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sporco/cupy/_cp_util.py b/sporco/cupy/_cp_util.py
index 253cdce..ef1c064 100644
--- a/sporco/cupy/_cp_util.py
+++ b/sporco/cupy/_cp_util.py
@@ -54,11 +54,14 @@ def cupy_wrapper(func):
                 kwargs[k] = cp.asarray(v)
         rtn = func(*args, **kwargs)
         if isinstance(rtn, (list, tuple)):
-            for n, a in enumerate(rtn):
-                if isinstance(a, cp.core.core.ndarray):
-                    rtn[n] = cp.asnumpy(a)
+            vals = [cp.asnumpy(a) if isinstance(a, cp.ndarray) else a
+                    for a in rtn]
+            if hasattr(rtn, '_fields'):
+                rtn = type(rtn)(*vals)
+            else:
+                rtn = type(rtn)(vals)
         else:
-            if isinstance(rtn, cp.core.core.ndarray):
+            if isinstance(rtn, cp.ndarray):
                 rtn = cp.asnumpy(rtn)
         return rtn
     return wrapped
-- 
2.43.0


From 0d8be7de34c45a1059ff8e60f868833e7d6d815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:09 +0000
Subject: [PATCH 64/74] fix: importing sporco.cupy changed the import path of
 already imported standard modules

---
 sporco/cupy/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sporco/cupy/__init__.py b/sporco/cupy/__init__.py
index ba1169a..cee3332 100644
--- a/sporco/cupy/__init__.py
+++ b/sporco/cupy/__init__.py
@@ -10,6 +10,7 @@ of numpy"""
 
 from __future__ import absolute_import
 
+import copy
 import sys
 import re
 from functools import reduce
@@ -132,7 +133,13 @@ def patch_module(name, pname, pfile=None, attrib=None):
 
     if attrib is None:
         attrib = {}
-    spec = importlib.util.find_spec(name)
+    # If the module has already been imported, find_spec returns the spec
+    # of the imported module, so changes have to be made to a copy
+    spec = copy.copy(importlib.util.find_spec(name))
+    spec.loader = copy.copy(spec.loader)
+    if spec.submodule_search_locations is not None:
+        spec.submodule_search_locations = list(
+            spec.submodule_search_locations)
     spec.name = pname
     if pfile is not None:
         spec.origin = pfile
-- 
2.43.0


From 825f38ae22c403fd88ccb8de5c162af7cfa373b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:43 +0000
Subject: [PATCH 65/74] fix: parallel consensus dictionary learning ignored
 option IterTimer

---
 sporco/dictlrn/prlcnscdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/dictlrn/prlcnscdl.py b/sporco/dictlrn/prlcnscdl.py
index a150914..6990980 100644
--- a/sporco/dictlrn/prlcnscdl.py
+++ b/sporco/dictlrn/prlcnscdl.py
@@ -602,7 +602,7 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
             self.timer.start('solve_wo_eval')
 
             # Record iteration stats
-            tk = self.timer.elapsed('solve')
+            tk = self.timer.elapsed(self.opt['IterTimer'])
             itst = self.IterationStats(*((self.j,) + fnev + (tk,)))
             self.itstat.append(itst)
 
@@ -1176,7 +1176,7 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
             self.timer.start('solve_wo_eval')
 
             # Record iteration stats
-            tk = self.timer.elapsed('solve')
+            tk = self.timer.elapsed(self.opt['IterTimer'])
             itst = self.IterationStats(*((self.j,) + fnev + (tk,)))
             self.itstat.append(itst)
 
-- 
2.43.0


From a9eb0e3e3e671bac5d3b6346b3dd569b2e6b2d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:10 +0000
Subject: [PATCH 66/74] fix: default options of OnlineConvBPDNMaskDictLearn

---
 sporco/dictlrn/onlinecdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index 0086628..a1c70dd 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -152,7 +152,7 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
         """
 
         if opt is None:
-            opt = OnlineConvBPDNDictLearn.Options()
+            opt = type(self).Options()
         if not isinstance(opt, OnlineConvBPDNDictLearn.Options):
             raise TypeError('Parameter opt must be an instance of '
                             'OnlineConvBPDNDictLearn.Options')
-- 
2.43.0


From 38d265eb90ceec48302067b95dd3bdb62cbe5c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:49 +0000
Subject: [PATCH 67/74] fix: names of images in subdirectories when the path
 ends in a separator

---
 sporco/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sporco/util.py b/sporco/util.py
index 6252ee4..4662f3d 100644
--- a/sporco/util.py
+++ b/sporco/util.py
@@ -429,7 +429,9 @@ class ExampleImages(object):
         for dirpath, dirnames, filenames in os.walk(self.bpth):
             # It would be more robust and portable to use
             # pathlib.PurePath.relative_to
-            prnpth = dirpath[len(self.bpth)+1:]
+            prnpth = os.path.relpath(dirpath, self.bpth)
+            if prnpth == os.curdir:
+                prnpth = ''
             for f in filenames:
                 fpth = os.path.join(dirpath, f)
                 if is_image(fpth):
-- 
2.43.0


From 1a986dc9ffc8fd34a88adc73e3e7f8a60613f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:50 +0000
Subject: [PATCH 68/74] fix: scroll wheel zoom over one plot changed all plots
 of the figure

---
 sporco/plot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sporco/plot.py b/sporco/plot.py
index 0359c30..74dbe77 100644
--- a/sporco/plot.py
+++ b/sporco/plot.py
@@ -106,6 +106,9 @@ def attach_zoom(ax, scaling=2.0):
         # Return if cursor is not over valid region of plot
         if xdata is None or ydata is None:
             return
+        # Return if cursor is over different axes of the same figure
+        if event.inaxes is not ax:
+            return
 
         if event.button == 'up':
             # Deal with zoom in
-- 
2.43.0


From b715060714729429c7c89c231fc0050e875b5f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:50 +0000
Subject: [PATCH 69/74] fix: scroll wheel zoom was applied once per curve drawn
 in the same axes

---
 sporco/plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sporco/plot.py b/sporco/plot.py
index 74dbe77..9714e94 100644
--- a/sporco/plot.py
+++ b/sporco/plot.py
@@ -173,7 +173,10 @@ def attach_zoom(ax, scaling=2.0):
 
     # Get figure for specified axes and attach the event handler
     fig = ax.get_figure()
-    fig.canvas.mpl_connect('scroll_event', zoom)
+    # Avoid multiple event handlers attached to the same axes
+    if hasattr(ax, '_sporco_zoom_cid'):
+        fig.canvas.mpl_disconnect(ax._sporco_zoom_cid)
+    ax._sporco_zoom_cid = fig.canvas.mpl_connect('scroll_event', zoom)
 
     return zoom
 
-- 
2.43.0


From 1b5d61a1cd57834cebf2e79933d067c3a3406d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:50 +0000
Subject: [PATCH 70/74] fix: zooming into a plot with inverted x axis had no
 effect

---
 sporco/plot.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sporco/plot.py b/sporco/plot.py
index 9714e94..acf488b 100644
--- a/sporco/plot.py
+++ b/sporco/plot.py
@@ -129,15 +129,26 @@ def attach_zoom(ax, scaling=2.0):
         new_ylim = (ydata - y_top * scale_factor,
                     ydata + y_bottom * scale_factor)
 
+        # Ensure that xlim tuple has the smallest value first
+        if zoom.xlim_ref[1] < zoom.xlim_ref[0]:
+            xlim_ref = zoom.xlim_ref[::-1]
+            new_xlim = new_xlim[::-1]
+        else:
+            xlim_ref = zoom.xlim_ref
+
         # Ensure that x limit range is no larger than that of the reference
-        if np.diff(new_xlim) > np.diff(zoom.xlim_ref):
-            new_xlim *= np.diff(zoom.xlim_ref) / np.diff(new_xlim)
+        if np.diff(new_xlim) > np.diff(xlim_ref):
+            new_xlim *= np.diff(xlim_ref) / np.diff(new_xlim)
         # Ensure that lower x limit is not less than that of the reference
-        if new_xlim[0] < zoom.xlim_ref[0]:
-            new_xlim += np.array(zoom.xlim_ref[0] - new_xlim[0])
+        if new_xlim[0] < xlim_ref[0]:
+            new_xlim += np.array(xlim_ref[0] - new_xlim[0])
         # Ensure that upper x limit is not greater than that of the reference
-        if new_xlim[1] > zoom.xlim_ref[1]:
-            new_xlim -= np.array(new_xlim[1] - zoom.xlim_ref[1])
+        if new_xlim[1] > xlim_ref[1]:
+            new_xlim -= np.array(new_xlim[1] - xlim_ref[1])
+
+        # Return the xlim tuple to its original order
+        if zoom.xlim_ref[1] < zoom.xlim_ref[0]:
+            new_xlim = new_xlim[::-1]
 
         # Ensure that ylim tuple has the smallest value first
         if zoom.ylim_ref[1] < zoom.ylim_ref[0]:
-- 
2.43.0


From 9c8d2e3007bb0206f70ed31b475ec43099814ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:50 +0000
Subject: [PATCH 71/74] fix: surf drew in the current figure instead of the
 specified figure

---
 sporco/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/plot.py b/sporco/plot.py
index acf488b..f0f950f 100644
--- a/sporco/plot.py
+++ b/sporco/plot.py
@@ -369,7 +369,7 @@ def surf(z, x=None, y=None, elev=None, azim=None, xlbl=None, ylbl=None,
         ax = plt.axes(projection='3d')
     else:
         if ax is None:
-            ax = plt.axes(projection='3d')
+            ax = fig.add_subplot(111, projection='3d')
         else:
             # See https://stackoverflow.com/a/43563804
             #     https://stackoverflow.com/a/35221116
-- 
2.43.0


From c7a30a3814e4bdd80711b33add4d174f942f92b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:50 +0000
Subject: [PATCH 72/74] fix: contour labels were displayed with cfntsz 0 when
 cfmt was specified

---
 sporco/plot.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sporco/plot.py b/sporco/plot.py
index f0f950f..b06adfb 100644
--- a/sporco/plot.py
+++ b/sporco/plot.py
@@ -507,12 +507,10 @@ def contour(z, x=None, y=None, v=5, xlog=False, ylog=False, xlbl=None,
     xg, yg = np.meshgrid(x, y)
 
     cntr = ax.contour(xg, yg, z, v, colors='black')
-    kwargs = {}
     if cfntsz is not None and cfntsz > 0:
-        kwargs['fontsize'] = cfntsz
-    if cfmt is not None:
-        kwargs['fmt'] = cfmt
-    if kwargs:
+        kwargs = {'fontsize': cfntsz}
+        if cfmt is not None:
+            kwargs['fmt'] = cfmt
         plt.clabel(cntr, inline=True, **kwargs)
     pc = ax.pcolormesh(xg, yg, z, cmap=cmap, vmin=vmin, vmax=vmax, alpha=alpha,
                        shading='gouraud', clim=(vmin, vmax))
-- 
2.43.0


From df07f5c81c8faadb2b8c958d6a344ae7394b7e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:50 +0000
Subject: [PATCH 73/74] fix: imview of a constant image with scaling displayed
 NaN values

---
 sporco/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/plot.py b/sporco/plot.py
index b06adfb..1f88925 100644
--- a/sporco/plot.py
+++ b/sporco/plot.py
@@ -633,14 +633,16 @@ def imview(img, title=None, copy=True, fltscl=False, intrp='nearest',
     if np.issubdtype(img.dtype, np.floating):
         if fltscl:
             imgd -= imgd.min()
-            imgd /= imgd.max()
+            if imgd.max() > 0:
+                imgd /= imgd.max()
         if img.ndim > 2:
             imgd = np.clip(imgd, 0.0, 1.0)
     elif img.dtype == np.uint16:
         imgd = np.float32(imgd) / np.iinfo(np.uint16).max
     elif img.dtype == np.int16:
         imgd = np.float32(imgd) - imgd.min()
-        imgd /= imgd.max()
+        if imgd.max() > 0:
+            imgd /= imgd.max()
 
     if norm is None:
         im = ax.imshow(imgd, cmap=cmap, interpolation=intrp, vmin=imgd.min(),
-- 
2.43.0


From 068e6ccc74a44cf0053f41dc49afbb3caa28fcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:07 +0000
Subject: [PATCH 74/74] fix: accept sample points that are not arrays in
 grid_search

---
 sporco/mpiutil.py | 1 +
 sporco/util.py    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/sporco/mpiutil.py b/sporco/mpiutil.py
index bc6547b..93176b6 100644
--- a/sporco/mpiutil.py
+++ b/sporco/mpiutil.py
@@ -124,6 +124,7 @@ def grid_search(fn, grid, comm=None, mpidtype=None, fmin=True):
         comm = MPI.COMM_WORLD
     if mpidtype is None:
         mpidtype = MPI.DOUBLE
+    grid = tuple(np.asarray(a) for a in grid)
     fprm = itertools.product(*grid)
 
     # Distribute computation among processes in MPI communicator
diff --git a/sporco/util.py b/sporco/util.py
index 4662f3d..1ef8a80 100644
--- a/sporco/util.py
+++ b/sporco/util.py
@@ -140,6 +140,7 @@ def grid_search(fn, grd, fmin=True, nproc=None):
         slct = np.nanargmin
     else:
         slct = np.nanargmax
+    grd = tuple(np.asarray(a) for a in grd)
     fprm = itertools.product(*grd)
     osname = platform.system()
     if osname == 'Windows' or osname == 'Darwin':
-- 
2.43.0

