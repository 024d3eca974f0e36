From 720893c4c466d19594a38623294765576476e98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 01/19] fix: raise ZeroDivisionError when dividing coefficients
 or patterns by zero

---
 spherepy/spherepy.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 24608ca..244c637 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -601,7 +601,7 @@ class ScalarCoefs(object):
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -610,7 +610,7 @@ class ScalarCoefs(object):
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a
@@ -619,7 +619,7 @@ class ScalarCoefs(object):
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -628,7 +628,7 @@ class ScalarCoefs(object):
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -881,7 +881,7 @@ class VectorCoefs(object):
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -890,7 +890,7 @@ class VectorCoefs(object):
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -899,7 +899,7 @@ class VectorCoefs(object):
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -908,7 +908,7 @@ class VectorCoefs(object):
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -1132,7 +1132,7 @@ class ScalarPatternUniform(object):
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -1141,7 +1141,7 @@ class ScalarPatternUniform(object):
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a 
@@ -1150,7 +1150,7 @@ class ScalarPatternUniform(object):
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -1159,7 +1159,7 @@ class ScalarPatternUniform(object):
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -1332,7 +1332,7 @@ class TransversePatternUniform:
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b  
@@ -1341,7 +1341,7 @@ class TransversePatternUniform:
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a 
@@ -1350,7 +1350,7 @@ class TransversePatternUniform:
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b  
@@ -1359,7 +1359,7 @@ class TransversePatternUniform:
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a    
-- 
2.43.0


From 3b77f11102ad9b78080d30cea6d66341b3e075d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 02/19] fix: reject arithmetic between coefficient objects of
 different nmax or mmax

---
 spherepy/spherepy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 244c637..f9ec5ad 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -545,7 +545,7 @@ class ScalarCoefs(object):
         @wraps(func)
         def verif(self, scoef):
             if isinstance(scoef, ScalarCoefs):
-                if len(self._vec) == len(scoef._vec):
+                if (self.nmax == scoef.nmax) and (self.mmax == scoef.mmax):
                     return ScalarCoefs(func(self, self._vec, scoef._vec),
                                         self.nmax,
                                         self.mmax)
@@ -819,7 +819,7 @@ class VectorCoefs(object):
         @wraps(func)
         def verif(self, vcoef):
             if isinstance(vcoef, VectorCoefs):
-                if len(vcoef.scoef1._vec) == len(vcoef.scoef1._vec):
+                if (self.nmax == vcoef.nmax) and (self.mmax == vcoef.mmax):
                     return VectorCoefs(func(self, self.scoef1._vec,
                                                   vcoef.scoef1._vec),
                                        func(self, self.scoef2._vec,
-- 
2.43.0


From 48791324eee6b9461ffdfeed0b6d8031463e32ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 03/19] fix: mag2 of scalar coefficients returns the squared
 magnitude

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index f9ec5ad..b07cae6 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1710,7 +1710,7 @@ def mag2(sobj):
     if isinstance(sobj, ScalarPatternUniform):
         return np.abs(sobj.array) ** 2
     elif isinstance(sobj, ScalarCoefs):
-        return ScalarCoefs(np.abs(sobj._vec), sobj.nmax, sobj.mmax)
+        return ScalarCoefs(np.abs(sobj._vec) ** 2, sobj.nmax, sobj.mmax)
     elif isinstance(sobj, TransversePatternUniform):
         return np.abs(sobj.theta) ** 2 + np.abs(sobj.phi) ** 2
     elif isinstance(sobj, VectorCoefs):
-- 
2.43.0


From f53a29aa6a8e25fa85c4e2a0ad3058a3180c9dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 04/19] fix: L2 norm of vector coefficients uses both
 components

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index b07cae6..28fb22d 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2187,7 +2187,7 @@ def L2_coef(coef):
         return np.sqrt(np.sum(np.abs(coef._vec) ** 2))
     elif isinstance(coef, VectorCoefs):
         l1 = np.sqrt(np.sum(np.abs(coef.scoef1._vec) ** 2))
-        l2 = np.sqrt(np.sum(np.abs(coef.scoef1._vec) ** 2))
+        l2 = np.sqrt(np.sum(np.abs(coef.scoef2._vec) ** 2))
         return np.sqrt(l1 ** 2 + l2 ** 2)
     
 def L2_patt(patt):
-- 
2.43.0


From 010013c291fe6dc0a6c8af4d7597ba9ae441f2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 05/19] fix: symmetry of a tangential pattern checks the phi
 component too

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 28fb22d..82c85cd 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1238,7 +1238,7 @@ class TransversePatternUniform:
         """
         
         sv_t = self._sv(self._tdsphere)
-        sv_p = self._sv(self._tdsphere)
+        sv_p = self._sv(self._pdsphere)
         
         return (sv_t, sv_p)
         
-- 
2.43.0


From 52b25310314e2ee77486d3de9895d460b05c56d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 06/19] fix: sph_harmonic_tp evaluates phi at the ncols sample
 points

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 82c85cd..3385da6 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2232,7 +2232,7 @@ def sph_harmonic_tp(nrows, ncols, n, m):
     yvec = np.concatenate([num, nuvec])
     
     theta = np.linspace(0.0, np.pi, nrows)
-    phi = np.linspace(0.0, 2.0 * np.pi - 2.0 * np.pi / ncols)
+    phi = np.linspace(0.0, 2.0 * np.pi - 2.0 * np.pi / ncols, ncols)
     nu = np.array(range(-n, n + 1), dtype=np.complex128)
     
     out = np.zeros([nrows, ncols], dtype=np.complex128)
-- 
2.43.0


From 9355074d6c11635810745f2a459ef9ae01c68a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 07/19] fix: spht and vspht honour an mmax that is given
 without nmax

---
 spherepy/spherepy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 3385da6..be1b046 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1860,7 +1860,8 @@ def spht(ssphere, nmax=None, mmax=None):
 
     if nmax == None:
         nmax = ssphere.nrows - 2 
-        mmax = int(ssphere.ncols / 2) - 1
+        if mmax == None:
+            mmax = int(ssphere.ncols / 2) - 1
     elif mmax == None:
         mmax = nmax
 
@@ -1905,7 +1906,8 @@ def vspht(vsphere, nmax=None, mmax=None):
     
     if nmax == None:
         nmax = vsphere.nrows - 2 
-        mmax = int(vsphere.ncols / 2) - 1
+        if mmax == None:
+            mmax = int(vsphere.ncols / 2) - 1
     elif mmax == None:
         mmax = nmax
 
-- 
2.43.0


From 83c56577c5f4c40a0277886e9bec331bb118dd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 08/19] fix: assigning c[n, :] takes one value per existing
 mode when n > mmax

---
 spherepy/spherepy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index be1b046..1a5e38a 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -405,13 +405,14 @@ class ScalarCoefs(object):
                 if (n > self.nmax) or (n < 0):
                     raise AttributeError(err_msg['n_out_bound'])
 
-                if (len(val) != 2 * n + 1):
-                    raise AttributeError(err_msg['dim_no_mtch'])
-
                 if n <= self.mmax:
                     nn = n
                 else:
                     nn = self.mmax            
+
+                if (len(val) != 2 * nn + 1):
+                    raise AttributeError(err_msg['dim_no_mtch'])
+
                 for k, m in enumerate(xrange(-nn, nn + 1)):
                     self.__setitem__((n, m), val[k])
 
-- 
2.43.0


From 8bc28b170ccaa52fa36da00170a9900c3a834284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 09/19] fix: double_sphere keeps consistent samples whose
 product underflows

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 1a5e38a..c141f5f 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1775,7 +1775,7 @@ def double_sphere(cdata, sym):
                           np.mod(int(np.floor(ncols / 2)) + m, ncols)]
             t = cdata[n, m]
 
-            if s * t == 0:
+            if s == 0 or t == 0:
                 ddata[n, m] = s + t
             else:
                 ddata[n, m] = (s + t) / 2
-- 
2.43.0


From 59bfed7fa0b84ecb95bfc2412ab62db6a2c945d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 10/19] fix: loading files keeps infinities and signed zeros of
 the saved numbers

---
 spherepy/file.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/spherepy/file.py b/spherepy/file.py
index 3145856..a24cb14 100644
--- a/spherepy/file.py
+++ b/spherepy/file.py
@@ -112,7 +112,7 @@ def load_patt(filename):
             m = int(lst[1])
             re = float(lst[2])
             im = float(lst[3])
-            patt[n, m] = re + 1j * im
+            patt[n, m] = complex(re, im)
 
     return sp.ScalarPatternUniform(patt, doublesphere=False)
 
@@ -136,7 +136,7 @@ def load_vpatt(filename1, filename2):
             m = int(lst[1])
             re = float(lst[2])
             im = float(lst[3])
-            patt1[n, m] = re + 1j * im
+            patt1[n, m] = complex(re, im)
 
     with open(filename2) as f: 
         lines2 = f.readlines()
@@ -154,7 +154,7 @@ def load_vpatt(filename1, filename2):
             m = int(lst[1])
             re = float(lst[2])
             im = float(lst[3])
-            patt2[n, m] = re + 1j * im
+            patt2[n, m] = complex(re, im)
 
     return sp.TransversePatternUniform(patt1, patt2)
 
@@ -176,7 +176,7 @@ def load_fdata(filename):
             m = int(lst[1])
             re = float(lst[2])
             im = float(lst[3])
-            patt[n, m] = re + 1j * im
+            patt[n, m] = complex(re, im)
 
     return np.array(patt, dtype=np.complex128)
 
@@ -201,7 +201,7 @@ def load_coef(filename):
             lst = line.split(',')
             re = float(lst[0])
             im = float(lst[1])
-            vec[n] = re + 1j * im
+            vec[n] = complex(re, im)
 
     return sp.ScalarCoefs(vec, nmax, mmax)
 
@@ -239,9 +239,9 @@ def load_vcoef(filename):
                 im = float(lst[1])
 
                 if in_vec2:
-                    vec2[n] = re + 1j * im
+                    vec2[n] = complex(re, im)
                 else:
-                    vec1[n] = re + 1j * im
+                    vec1[n] = complex(re, im)
 
                 n += 1
 
-- 
2.43.0


From c2bd5773f11d0e6a1b10c8e228617ab311d739de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 11/19] fix: sbesselj and sbessely accept N = 1

---
 spherepy/sbessel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spherepy/sbessel.py b/spherepy/sbessel.py
index f856e6f..4522b7e 100644
--- a/spherepy/sbessel.py
+++ b/spherepy/sbessel.py
@@ -57,7 +57,8 @@ def sbessely(x, N):
     out = np.zeros(N, dtype=np.float64)
 
     out[0] = -np.cos(x) / x
-    out[1] = -np.cos(x) / (x ** 2) - np.sin(x) / x
+    if N > 1:
+        out[1] = -np.cos(x) / (x ** 2) - np.sin(x) / x
 
     for n in xrange(2, N):
         out[n] = ((2.0 * n - 1.0) / x) * out[n - 1] - out[n - 2]
@@ -77,6 +78,9 @@ def sbesselj(x, N):
     z = x ** 2
 
     out[0] = np.sin(x) / x
+    if N == 1:
+        return out
+
     j1 = np.sin(x) / z - np.cos(x) / x
 
     u = 1
-- 
2.43.0


From 185655d333806dab2bfcfeb34ccdfb406b2b029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 12/19] fix: reject negative degrees in c[0:k, :]

---
 spherepy/spherepy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index c141f5f..49af3f2 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -509,7 +509,7 @@ class ScalarCoefs(object):
                 (arg[0].step is None) and
                 isinstance(arg[0].stop, int)):
                 
-                if (arg[0].stop > self.nmax):
+                if (arg[0].stop > self.nmax) or (arg[0].stop < 0):
                     raise AttributeError(err_msg['n_out_bound'])
 
                 new_nmax = arg[0].stop
@@ -797,7 +797,7 @@ class VectorCoefs(object):
                 (arg[0].step is None) and
                 isinstance(arg[0].stop, int)):
                 
-                if (arg[0].stop > self.nmax):
+                if (arg[0].stop > self.nmax) or (arg[0].stop < 0):
                     raise AttributeError(err_msg['n_out_bound'])
 
                 new_nmax = arg[0].stop
-- 
2.43.0


From 23aafb6aa7d8847fbd9b5343a21387a73df4e701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 13/19] fix: ispht accepts real or strided coefficient storage

---
 spherepy/spherepy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 49af3f2..492646d 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2070,7 +2070,8 @@ def ispht(scoefs, nrows=None, ncols=None):
 
     if use_cext: 
         fdata = np.zeros([dnrows, ncols], dtype=np.complex128)
-        csphi.sc_to_fc(fdata, scoefs._vec, scoefs._nmax, scoefs._mmax)
+        vec = np.ascontiguousarray(scoefs._vec, dtype=np.complex128)
+        csphi.sc_to_fc(fdata, vec, scoefs._nmax, scoefs._mmax)
     else:   
         fdata = pysphi.sc_to_fc(scoefs._vec,
                             scoefs._nmax,
-- 
2.43.0


From 9c06af7d887569efd2b57f669a0e8b218f205098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 14/19] fix: spht_slow and ispht_slow reject sizes the data
 cannot represent

---
 spherepy/spherepy.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 492646d..69defe9 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2001,6 +2001,12 @@ def spht_slow(ssphere, nmax, mmax):
     if mmax > nmax:
         raise ValueError(err_msg['nmax_g_mmax'])
 
+    if nmax >= ssphere.nrows - 1:
+        raise ValueError(err_msg['nmax_too_lrg'])
+
+    if mmax >= ssphere.ncols / 2:
+        raise ValueError(err_msg['mmax_too_lrg'])
+
     nrows = ssphere._dsphere.shape[0]
     ncols = ssphere._dsphere.shape[1]
 
@@ -2171,6 +2177,12 @@ def ispht_slow(scoefs, nrows, ncols):
 
     """
 
+    if nrows <= scoefs.nmax:
+        raise ValueError(err_msg['inverse_terr'])
+
+    if ncols < 2 * scoefs.mmax + 2:
+        raise ValueError(err_msg['inverse_terr'])
+
     dnrows = 2 * nrows - 2
 
     if np.mod(ncols, 2) == 1:
-- 
2.43.0


From 4cc0b6218c91b927d4fdc7e14ec50fbafed3f0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 15/19] fix: ispht rejects nrows = 1, for which the C extension
 wrote outside the empty array

---
 spherepy/spherepy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 69defe9..6346613 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2063,7 +2063,7 @@ def ispht(scoefs, nrows=None, ncols=None):
     if ncols == None:
         ncols = 2 * scoefs.mmax + 2
 
-    if nrows <= scoefs.nmax:
+    if nrows <= scoefs.nmax or nrows < 2:
         raise ValueError(err_msg['inverse_terr'])
 
     if ncols < 2 * scoefs.mmax + 2:
@@ -2177,7 +2177,7 @@ def ispht_slow(scoefs, nrows, ncols):
 
     """
 
-    if nrows <= scoefs.nmax:
+    if nrows <= scoefs.nmax or nrows < 2:
         raise ValueError(err_msg['inverse_terr'])
 
     if ncols < 2 * scoefs.mmax + 2:
-- 
2.43.0


From f178fcda3d668f3466df996ae68d298c369edc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 16/19] fix: sine-integral weights of the Nyquist row no longer
 overwrite another weight

---
 spherepy/pysphi.py | 2 +-
 src/csphi.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spherepy/pysphi.py b/spherepy/pysphi.py
index 3ebab4d..22237b4 100644
--- a/spherepy/pysphi.py
+++ b/spherepy/pysphi.py
@@ -140,7 +140,7 @@ def s_data(nrows_fdata, Nmax, Q):
     s = np.zeros(Q, dtype=np.complex128)
     MM = int(L1 / 2)
 
-    for nu in xrange(-MM, MM + Nmax + 1):
+    for nu in xrange(-MM + 1, MM + Nmax + 1):
         if np.mod(nu, 2) == 1:
             s[nu - MM] = -1j / nu
 
diff --git a/src/csphi.c b/src/csphi.c
index edbc3e4..260e52e 100644
--- a/src/csphi.c
+++ b/src/csphi.c
@@ -158,7 +158,7 @@ void SData(SCOMPLEX* s,int Q,int Nrows, int Nmax)
 	for(k=mm;k<=mm+nn - 1;k++)
 		if ((k % 2) == 1)
 			s[k-mm].i = -1/((SFLOAT)k);
-	for(k=-mm;k<mm;k++)
+	for(k=-mm+1;k<mm;k++)
 		if ((abs(k) % 2) == 1)
 			s[Q+k-mm].i = -1/((SFLOAT)k);
 }
-- 
2.43.0


From c62bf9058ca3fc839ca89b0717021924016e305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:26 +0000
Subject: [PATCH 17/19] fix: sbesselj no longer divides by zero or loses
 accuracy at special arguments

The continued fraction was summed with Steed's algorithm, whose denominators
vanish for x near sqrt(4n^2-1): ZeroDivisionError or wrong values.  The
downward recurrence returned nan when x rounds to a zero of one of the
functions, and j1 was garbage for |x| < 1e-16.
---
 spherepy/sbessel.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/spherepy/sbessel.py b/spherepy/sbessel.py
index 4522b7e..dbc8dc9 100644
--- a/spherepy/sbessel.py
+++ b/spherepy/sbessel.py
@@ -75,31 +75,44 @@ def sbesselj(x, N):
 
     nmax = N - 1;
     out = np.zeros(N, dtype=np.float64)
-    z = x ** 2
 
     out[0] = np.sin(x) / x
     if N == 1:
         return out
 
-    j1 = np.sin(x) / z - np.cos(x) / x
+    j1 = (np.sin(x) / x - np.cos(x)) / x
 
-    u = 1
-    v = x / (2.0 * nmax + 1.0)
-    w = v
+    # continued fraction for jn[nmax - 1] / jn[nmax], modified Lentz algorithm:
+    # a vanishing denominator is replaced by a tiny number
+    tiny = 1e-30
     n = nmax
+    w = (2.0 * n + 1.0) / x
+    c = w
+    d = 0.0
+    delta = 0.0
 
-    while(np.abs(v / w) > 1e-20):
+    while(np.abs(delta - 1.0) > 1e-15):
         n = n + 1
-        u = 1 / (1 - z * u / (4.0 * n ** 2 - 1.0))
-        v *= u - 1
-        w += v
-
-    out[nmax] = w
+        b = (2.0 * n + 1.0) / x
+        d = b - d
+        if d == 0:
+            d = tiny
+        c = b - 1.0 / c
+        if c == 0:
+            c = tiny
+        d = 1.0 / d
+        delta = c * d
+        w *= delta
+
+    out[nmax] = 1.0 / w
 
     for n in xrange(nmax - 1, 0, -1):
-        out[n] = 1.0 / ((2.0 * n + 1.0) / x - out[n + 1])
+        d = (2.0 * n + 1.0) / x - out[n + 1]
+        if d == 0:
+            d = tiny
+        out[n] = 1.0 / d
 
-    if(np.abs(out[0]) >= np.abs(j1)):
+    if(np.abs(x) < 1.0 or np.abs(out[0]) >= np.abs(j1)):
         out[1] *= out[0]
     else:
         out[1] = j1
-- 
2.43.0


From d36927ee33f1fd924bb187bccf2354549674af0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:25 +0000
Subject: [PATCH 18/19] fix: draw the coefficient image with its cells centred
 on (m, n)

pcolormesh was given values of the same size as the cell-edge arrays; matplotlib
then takes the arrays as cell centres and every cell is drawn half a cell off.
---
 spherepy/plot_sphere.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spherepy/plot_sphere.py b/spherepy/plot_sphere.py
index e07e67c..59b52af 100644
--- a/spherepy/plot_sphere.py
+++ b/spherepy/plot_sphere.py
@@ -185,7 +185,8 @@ def pcolor_coefs(coefs):
     x, y = np.meshgrid(np.array(range(-coefs.mmax, coefs.mmax + 2)) - 0.5,
                       np.array(range(0, coefs.nmax + 2)) - 0.5)
 
-    plt.pcolormesh(x, y, z, cmap='jet', vmin=z_min, vmax=z_max)
+    # x and y are the cell edges, so there is one cell less in each direction
+    plt.pcolormesh(x, y, z[:-1, :-1], cmap='jet', vmin=z_min, vmax=z_max)
     plt.title('Spherical Coefficients')
     plt.xlabel('m')
     plt.ylabel('n')
-- 
2.43.0


From f13fbaf9fe6452136a478c8b6078c965bc8f29f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:08 +0000
Subject: [PATCH 19/19] fix: vector coefficients may be stored as real or
 single-precision numbers

---
 spherepy/spherepy.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 6346613..9c7532f 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -652,8 +652,8 @@ class VectorCoefs(object):
             raise ValueError(err_msg['vcoef_size'])
 
         # There are no monopoles for structure VectorCoefs
-        vec1[0] = 0 + 1j*0
-        vec2[0] = 0 + 1j*0
+        vec1[0] = 0
+        vec2[0] = 0
 
         self.scoef1 = ScalarCoefs(vec1, nmax, mmax)
         self.scoef2 = ScalarCoefs(vec2, nmax, mmax)
@@ -2114,8 +2114,10 @@ def vispht(vcoefs, nrows=None, ncols=None):
     for n in xrange(1, vcoefs.nmax + 1):
         nvec[n] = 1.0 / np.sqrt(n * (n + 1.0))
 
-    sc1 = vcoefs.scoef1.copy()
-    sc2 = vcoefs.scoef2.copy()
+    sc1 = ScalarCoefs(np.array(vcoefs.scoef1._vec, dtype=np.complex128),
+                      vcoefs.nmax, vcoefs.mmax)
+    sc2 = ScalarCoefs(np.array(vcoefs.scoef2._vec, dtype=np.complex128),
+                      vcoefs.nmax, vcoefs.mmax)
 
     sc1.window(nvec)
     sc2.window(nvec)
-- 
2.43.0

