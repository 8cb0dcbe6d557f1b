From d71ba3d83b78d32e653eb429bfd8081bc632976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 01/71] fix: recursion matrices of Jacobi polynomials with
 alpha+beta equal to 0 or -1

---
 shenfun/jacobi/recursions.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/shenfun/jacobi/recursions.py b/shenfun/jacobi/recursions.py
index d264e18..33e44c1 100644
--- a/shenfun/jacobi/recursions.py
+++ b/shenfun/jacobi/recursions.py
@@ -451,10 +451,14 @@ def pmat(mat, q, alf, bet, M, N, gn=1):
         pass
 
     d = {}
+    # The general expressions are 0/0 for the first few entries if
+    # alf+bet equals 0 or -1. Simplify before inserting alf and bet.
+    singular = float(alf+bet) in (-1.0, 0.0) and not alf == bet == 0
+    simp = sp.simplify if singular else (lambda f: f)
     for i in range(-q, q+1):
         f = matpow(mat, q, alfa, beta, m, m+i, gn)
         fz = sp.simplify(f.subs([(alfa, alf), (beta, bet)]))
-        if not fz == 0:
+        if not fz == 0 or (singular and i == 0):
             fz = sp.lambdify(m, fz)
             if i >= 0:
                 Z = min(N-i, M)
@@ -466,22 +470,22 @@ def pmat(mat, q, alf, bet, M, N, gn=1):
                     if len(d[i]) > q+1:
                         d[i][q+1:] = fz(np.arange(q+1, Z))
                 else:
-                    d[i][:q] = [f.subs(m, z).subs([(alfa, alf), (beta, bet)]) for z in np.arange(0, q)]
+                    d[i][:q] = [simp(f.subs(m, z)).subs([(alfa, alf), (beta, bet)]) for z in np.arange(0, q)]
                     d[i][q:] = fz(np.arange(q, Z))
             else:
                 Z = min(M-abs(i), N)
                 d[i] = np.zeros(Z)
                 if mat == b and q+i > 0:
                     d[i][:(q+i)] = 0
-                    if alf == -half and bet == -half:
-                        d[i][(q+i):q] = [sp.simplify(f.subs(m, -i+z)).subs([(alfa, alf), (beta, bet)]) for z in np.arange(q+i, q)]
+                    if singular:
+                        d[i][(q+i):q] = [simp(f.subs(m, -i+z)).subs([(alfa, alf), (beta, bet)]) for z in np.arange(q+i, q)]
                         d[i][q:] = fz(np.arange(-i+q, Z-i))
                     else:
                         d[i][(q+i):] = fz(np.arange(q, Z-i))
 
                 else:
-                    if alf == -half and bet == -half:
-                        d[i][:q] = [sp.simplify(f.subs(m, -i+z)).subs([(alfa, alf), (beta, bet)]) for z in np.arange(0, q)]
+                    if singular:
+                        d[i][:q] = [simp(f.subs(m, -i+z)).subs([(alfa, alf), (beta, bet)]) for z in np.arange(0, q)]
                         d[i][q:] = fz(np.arange(-i+q, Z-i))
                     else:
                         d[i][:] = fz(np.arange(-i, Z-i))
-- 
2.43.0


From 033eccdb6ee7f6811d83da93ce52ced8293c72b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 02/71] fix: boundary values in tensor product spaces when few
 rows of the axis are local

---
 shenfun/tensorproductspace.py | 38 ++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 8147f99..27f6987 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -1957,6 +1957,14 @@ class BoundaryValues:
             b = Array(T)
             s = T.local_slice(False)[self.axis]
             num_bcs = self.bc.num_bcs()
+            M = T.global_shape(False)[self.axis]
+
+            def set_bc_dof(j, value):
+                # Put the value in the position of the bc dofs, on the ranks
+                # that own this position
+                i = M-num_bcs+j
+                if s.start <= i < s.stop:
+                    b[this_base.si[i-s.start]] = value
 
             for j, bci in enumerate(self.bc.orderedvals()):
                 if isinstance(bci, sp.Expr):
@@ -1970,11 +1978,9 @@ class BoundaryValues:
                     Yi = []
                     for sym in sym0:
                         k = 'xyzrs'.index(str(sym))
-                        Yi.append(X[k][this_base.si[j]])
+                        Yi.append(X[k][this_base.si[0]])
                     f_bci = lbci(*Yi)
-                    # Put the value in the position of the bc dofs
-                    if s.stop == int(this_base.N*this_base.padding_factor):
-                        b[this_base.si[-num_bcs+j]] = f_bci
+                    set_bc_dof(j, f_bci)
 
                 elif isinstance(bci, Function):
                     # if bci is some Function that needs to be evaluated at the boundary
@@ -1995,12 +2001,10 @@ class BoundaryValues:
                     mesh.insert(self.axis, np.ones(len(mesh[0]))*dm)
                     xj = np.vstack(mesh)
                     newb = bci.function_space().eval(xj, bci).reshape(gs)
-                    if s.stop == int(this_base.N*this_base.padding_factor):
-                        b[this_base.si[-num_bcs+j]] = newb[sl]
+                    set_bc_dof(j, newb[sl])
 
                 elif isinstance(bci, (Number, np.ndarray)):
-                    if s.stop == int(this_base.N*this_base.padding_factor):
-                        b[this_base.si[-num_bcs+j]] = bci
+                    set_bc_dof(j, bci)
 
                 else:
                     raise NotImplementedError
@@ -2028,8 +2032,8 @@ class BoundaryValues:
                     self.bcs[j] = b_hat[this_base.si[-num_bcs+j]].copy()
                 b_hat = T.forward(b).copy()
 
-                for j in range(self.bc.num_bcs()):
-                    self.bcs_final[j] = b_hat[this_base.si[-num_bcs+j]].copy()
+                for j, i in self._local_boundary_dofs():
+                    self.bcs_final[j] = b_hat[this_base.si[i]].copy()
 
             elif len(T.get_nonhomogeneous_axes()) == 2:
                 assert len(T.bases) == 2, 'Only implemented for 2D'
@@ -2105,6 +2109,16 @@ class BoundaryValues:
         w0 = np.zeros_like(u)
         u -= M.matvec(u, w0, axis=self.base.axis)
 
+    def _local_boundary_dofs(self):
+        """Return (j, i) for each boundary dof j stored at this processor's
+        local index i in fully transformed arrays"""
+        N = self.base.N
+        M = self.bc.num_bcs()
+        s = slice(0, N)
+        if isinstance(self.tensorproductspace, TensorProductSpace):
+            s = self.tensorproductspace.local_slice(True)[self.axis]
+        return [(j, N-M+j-s.start) for j in range(M) if s.start <= N-M+j < s.stop]
+
     def set_boundary_dofs(self, u, final=False):
         """Apply boundary condition after solving, fixing boundary dofs
 
@@ -2121,8 +2135,8 @@ class BoundaryValues:
         """
         M = self.bc.num_bcs()
         if final is True:
-            for i in range(M):
-                u[self.base.si[-(M)+i]] = self.bcs_final[i]
+            for j, i in self._local_boundary_dofs():
+                u[self.base.si[i]] = self.bcs_final[j]
         else:
             for i in range(M):
                 u[self.base.si[-(M)+i]] = self.bcs[i]
-- 
2.43.0


From 95de8897303119fe8bc56e02e6a61b150ea822a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 03/71] fix: norm of the constant Jacobi polynomial when
 alpha+beta equals -1

---
 shenfun/jacobi/bases.py      | 5 ++++-
 shenfun/jacobi/recursions.py | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/shenfun/jacobi/bases.py b/shenfun/jacobi/bases.py
index a0fc26b..aaa5d9b 100644
--- a/shenfun/jacobi/bases.py
+++ b/shenfun/jacobi/bases.py
@@ -49,7 +49,10 @@ class JacobiBase(SpectralBase):
 
     def l2_norm_sq(self, i=None):
         if i is None:
-            return sp.lambdify(n, h(self.alpha, self.beta, n, 0, gn=self.gn))(np.arange(self.N))
+            f = sp.lambdify(n, h(self.alpha, self.beta, n, 0, gn=self.gn))(np.arange(self.N))
+            if sp.sympify(self.alpha+self.beta+1).equals(0):
+                f[0] = h(self.alpha, self.beta, 0, 0, gn=self.gn)
+            return f
         return h(self.alpha, self.beta, i, 0, gn=self.gn)
 
     @staticmethod
diff --git a/shenfun/jacobi/recursions.py b/shenfun/jacobi/recursions.py
index 33e44c1..285645b 100644
--- a/shenfun/jacobi/recursions.py
+++ b/shenfun/jacobi/recursions.py
@@ -355,6 +355,9 @@ def gamma(alf, bet, n):
         Index
     """
     #f = 2**(alfa+beta+1)*sp.gamma(m+alfa+1)*sp.gamma(m+beta+1)/sp.gamma(m+alfa+beta+1)/sp.gamma(m+1)/(2*m+alfa+beta+1)
+    if n == 0:
+        # The general formula is singular for alf + bet = -1
+        return sp.simplify(2**(alf+bet+1)*sp.gamma(alf+1)*sp.gamma(bet+1)/sp.gamma(alf+bet+2))
     f = sp.rf(n+1, alfa)/sp.rf(n+beta+1, alfa) * 2**(alfa+beta+1)/(2*n+alfa+beta+1)
     return sp.simplify(f.subs([(alfa, alf), (beta, bet)]))
 
-- 
2.43.0


From 9e8e393493a92f05b85b90b40d6afebc683b5cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 04/71] fix: padded backward transform of a Function with
 changing padding factors

---
 shenfun/forms/arguments.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index ed16a5b..bc09361 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -1620,11 +1620,12 @@ class Function(ShenfunBaseArray, BasisFunction):
                 # Note that the output_array is not the same shape as
                 # space.backward.output_array for spaces of rank > 0.
                 # Also, it is probably not safe to return space.backward.output_array
-                if hasattr(self, '_backward_work_array'):
-                    output_array = self._backward_work_array
-                else:
-                    output_array = Array(space)
-                    self._backward_work_array = output_array
+                if not hasattr(self, '_backward_work_array'):
+                    self._backward_work_array = {}
+                key = tuple(np.atleast_1d(padding_factor).tolist())
+                if key not in self._backward_work_array:
+                    self._backward_work_array[key] = Array(space)
+                output_array = self._backward_work_array[key]
             output_array = space.backward(self, output_array, kind=kind, mesh=mesh)
             return output_array
 
-- 
2.43.0


From 49ae33488925519bf1b926825f1f99f2ddcaa573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 05/71] fix: scalar product of padded spaces on more than one
 process

---
 shenfun/tensorproductspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 27f6987..85c13e6 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -537,7 +537,7 @@ class TensorProductSpace(PFFT):
             self.pencil[::-1], self)
         self.scalar_product = ScalarTransform(
             [o.scalar_product for o in self.xfftn[::-1]],
-            [o.forward for o in self.transfer[::-1]],
+            [o.backward for o in self.transfer[::-1]],
             self.pencil[::-1], self)
 
     def get_dealiased(self, padding_factor=1.5, dealias_direct=False):
-- 
2.43.0


From 7feb60527de6bbaaf0a13bccf479b350154ed1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 06/71] fix: padded transforms of Chebyshev and Legendre spaces

---
 shenfun/chebyshev/bases.py    |  8 ++++----
 shenfun/chebyshev/matrices.py |  2 +-
 shenfun/chebyshevu/bases.py   | 25 ++++++++++++++-----------
 shenfun/legendre/bases.py     |  4 ++--
 4 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/shenfun/chebyshev/bases.py b/shenfun/chebyshev/bases.py
index 43dfdb4..977174b 100644
--- a/shenfun/chebyshev/bases.py
+++ b/shenfun/chebyshev/bases.py
@@ -272,10 +272,10 @@ class Orthogonal(JacobiBase):
         if i is None:
             f = np.full(self.N, np.pi / 2)
             f[0] *= 2
-            if self.quad == "GL":
+            if self.quad == "GL" and self.shape(False) == self.N:
                 f[-1] *= 2
             return f
-        elif i == 0 or i == self.N - 1 and self.quad == "GL":
+        elif i == 0 or i == self.N - 1 and self.quad == "GL" and self.shape(False) == self.N:
             return np.pi
         return np.pi / 2
 
@@ -344,12 +344,12 @@ class Orthogonal(JacobiBase):
 
         if self.quad == "GC":
             out = self.scalar_product.xfftn()
-            out *= np.pi / (2 * self.domain_factor() * self.N * self.padding_factor)
+            out *= np.pi / (2 * self.domain_factor() * self.shape(False))
 
         elif self.quad == "GL":
             out = self.scalar_product.xfftn()
             out *= np.pi / (
-                2 * self.domain_factor() * (self.N * self.padding_factor - 1)
+                2 * self.domain_factor() * (self.shape(False) - 1)
             )
 
     def eval(self, x, u, output_array=None):
diff --git a/shenfun/chebyshev/matrices.py b/shenfun/chebyshev/matrices.py
index 8ac96fd..7b8e6f7 100644
--- a/shenfun/chebyshev/matrices.py
+++ b/shenfun/chebyshev/matrices.py
@@ -165,7 +165,7 @@ class BTTmat(SpectralMatrix):
         space = self.testfunction[0]
         u *= (2/np.pi*space.domain_factor())
         u[space.si[0]] /= 2
-        if space.quad == 'GL':
+        if space.quad == 'GL' and space.shape(False) == space.N:
             u[space.si[-1]] /= 2
         return u
 
diff --git a/shenfun/chebyshevu/bases.py b/shenfun/chebyshevu/bases.py
index 58eaeaa..898af69 100644
--- a/shenfun/chebyshevu/bases.py
+++ b/shenfun/chebyshevu/bases.py
@@ -101,7 +101,8 @@ class Orthogonal(JacobiBase):
         if quad == 'GC':
             self._xfftn_fwd = functools.partial(fftw.dstn, type=2)
             self._xfftn_bck = functools.partial(fftw.dstn, type=3)
-            self._sinGC = np.sin((np.arange(N)+0.5)*np.pi/N)
+            M = self.shape(False)
+            self._sinGC = np.sin((np.arange(M)+0.5)*np.pi/M)
 
         elif quad == 'GU':
             self._xfftn_fwd = functools.partial(fftw.dstn, type=1)
@@ -181,10 +182,10 @@ class Orthogonal(JacobiBase):
     def l2_norm_sq(self, i=None):
         if i is None:
             f = np.full(self.N, np.pi/2)
-            if self.quad == 'GC':
+            if self.quad == 'GC' and self.shape(False) == self.N:
                 f[-1] *= 2
             return f
-        elif i == self.N-1 and self.quad == 'GC':
+        elif i == self.N-1 and self.quad == 'GC' and self.shape(False) == self.N:
             return np.pi
         return np.pi/2
 
@@ -228,15 +229,16 @@ class Orthogonal(JacobiBase):
             SpectralBase._evaluate_scalar_product(self, kind=kind)
             return
 
+        M = self.scalar_product.input_array.shape[self.axis]
         if self.quad == 'GU':
-            self.scalar_product._input_array *= self.broadcast_to_ndims(np.sin(np.pi/(self.N+1)*(np.arange(1, self.N+1))))
+            self.scalar_product._input_array *= self.broadcast_to_ndims(np.sin(np.pi/(M+1)*(np.arange(1, M+1))))
             out = self.scalar_product.xfftn()
-            out *= (np.pi/(2*(self.N+1)*self.padding_factor*self.domain_factor()))
+            out *= (np.pi/(2*(M+1)*self.domain_factor()))
 
         elif self.quad == 'GC':
             self.scalar_product._input_array *= self.broadcast_to_ndims(self._sinGC)
             out = self.scalar_product.xfftn()
-            out *= (np.pi/(2*self.N*self.padding_factor*self.domain_factor()))
+            out *= (np.pi/(2*M*self.domain_factor()))
 
     def _evaluate_expansion_all(self, input_array, output_array, x=None, kind='fast'):
         if kind != 'fast':
@@ -247,18 +249,19 @@ class Orthogonal(JacobiBase):
         assert input_array is self.backward.tmp_array
         assert output_array is self.backward.output_array
         output_array = self.backward.xfftn()
+        M = output_array.shape[self.axis]
 
         if self.quad == "GU":
-            output_array *= 1/(2*self.broadcast_to_ndims(np.sin((np.arange(self.N)+1)*np.pi/(self.N+1))))
+            output_array *= 1/(2*self.broadcast_to_ndims(np.sin((np.arange(M)+1)*np.pi/(M+1))))
 
         elif self.quad == "GC":
-            s0 = self.sl[slice(self.N-1, self.N)]
-            se = self.sl[slice(0, self.N, 2)]
-            so = self.sl[slice(1, self.N, 2)]
+            s0 = self.sl[slice(M-1, M)]
+            se = self.sl[slice(0, M, 2)]
+            so = self.sl[slice(1, M, 2)]
             output_array *= 0.5
             output_array[se] += input_array[s0]/2
             output_array[so] -= input_array[s0]/2
-            output_array *= 1/(self.broadcast_to_ndims(np.sin((np.arange(self.N)+0.5)*np.pi/self.N)))
+            output_array *= 1/(self.broadcast_to_ndims(np.sin((np.arange(M)+0.5)*np.pi/M)))
 
     @property
     def is_orthogonal(self):
diff --git a/shenfun/legendre/bases.py b/shenfun/legendre/bases.py
index b3a069a..3752d49 100644
--- a/shenfun/legendre/bases.py
+++ b/shenfun/legendre/bases.py
@@ -157,10 +157,10 @@ class Orthogonal(JacobiBase):
     def l2_norm_sq(self, i=None):
         if i is None:
             f = 2/(2*np.arange(self.N)+1)
-            if self.quad == 'GL':
+            if self.quad == 'GL' and self.shape(False) == self.N:
                 f[-1] = 2/(self.N-1)
             return f
-        elif i == self.N-1 and self.quad == 'GL':
+        elif i == self.N-1 and self.quad == 'GL' and self.shape(False) == self.N:
             return 2/(self.N-1)
         return 2/(2*i+1)
 
-- 
2.43.0


From 6955780db7b3443bf17c72b801c56eb051fa8e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 07/71] fix: convolution without truncation on any number of
 processes

---
 shenfun/tensorproductspace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 85c13e6..931d6a8 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -1823,15 +1823,16 @@ class Convolve:
 
     def __init__(self, padding_space):
         self.padding_space = padding_space
-        shape = padding_space.shape()
+        shape = padding_space.global_shape()
         bases = []
         for i, base in enumerate(padding_space.bases):
-            newbase = base.__class__(shape[i], padding_factor=1.0)
+            newbase = base.__class__(shape[i], padding_factor=1.0, domain=base.domain)
             bases.append(newbase)
         axes = []
         for axis in padding_space.axes:
             axes.append(axis[0])
-        newspace = TensorProductSpace(padding_space.comm, bases, axes=axes)
+        newspace = TensorProductSpace(padding_space.subcomm, bases, axes=tuple(axes),
+                                      dtype=padding_space.dtype())
         self.newspace = newspace
 
     def __call__(self, a_hat, b_hat, ab_hat=None):
-- 
2.43.0


From d49430800bb598517970e98b12ba1fd759791b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 08/71] fix: sum point evaluations over the processes of the
 space only

---
 shenfun/tensorproductspace.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 931d6a8..e36bb28 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -696,6 +696,18 @@ class TensorProductSpace(PFFT):
         else:
             return self._eval_python(points, coefficients, output_array)
 
+    def _sum_over_processes(self, x):
+        """Return the sum of ``x`` over all processes of the space
+
+        Parameters
+        ----------
+        x : number or array
+            The contribution from this process
+        """
+        for subcomm in self.subcomm:
+            x = subcomm.allreduce(x)
+        return x
+
     def _eval_python(self, points, coefficients, output_array):
         """Evaluate Function at points, given expansion coefficients
 
@@ -771,11 +783,9 @@ class TensorProductSpace(PFFT):
                         out2 += np.sum(np.conj(P[sx].real*out[sd].real - P[sx].imag*out[sd].imag), axis=1+axis-k)
                 out = out2
             previous_axes.append(axis)
-        output_array[:] = out
-        output_array = comm.allreduce(output_array)
+        output_array[:] = self._sum_over_processes(out)
         return output_array
 
-
     def _eval_lm_cython(self, points, coefficients, output_array):
         """Evaluate Function at points, given expansion coefficients
 
@@ -811,8 +821,7 @@ class TensorProductSpace(PFFT):
         elif len(self) == 3:
             output_array = cython.evaluate.evaluate_lm_3D(list(self.bases), output_array, coefficients, x[0], x[1], x[2], w[0], w[1], w[2], r2c, last_conj_index, sl)
 
-        output_array = np.atleast_1d(output_array)
-        output_array = comm.allreduce(output_array)
+        output_array[:] = self._sum_over_processes(output_array)
         return output_array
 
     def _eval_cython(self, points, coefficients, output_array):
@@ -849,8 +858,7 @@ class TensorProductSpace(PFFT):
         elif len(self) == 3:
             output_array = cython.evaluate.evaluate_3D(output_array, coefficients, P, r2c, last_conj_index, sl)
 
-        output_array = np.atleast_1d(output_array)
-        output_array = comm.allreduce(output_array)
+        output_array[:] = self._sum_over_processes(output_array)
         return output_array
 
     def wavenumbers(self, scaled=False, eliminate_highest_freq=False):
-- 
2.43.0


From 3cde884215861d3c8230929984a994d14140f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 09/71] fix: point evaluation kernels: Nyquist mode,
 distributed polynomial axis, wavenumbers of third axis

---
 shenfun/optimization/cython/evaluate.pyx | 58 ++++++++++++------------
 shenfun/tensorproductspace.py            |  3 +-
 2 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/shenfun/optimization/cython/evaluate.pyx b/shenfun/optimization/cython/evaluate.pyx
index 6ebadce..391add9 100644
--- a/shenfun/optimization/cython/evaluate.pyx
+++ b/shenfun/optimization/cython/evaluate.pyx
@@ -82,7 +82,7 @@ def _evaluate_2D_cc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 else:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
 
     return b
@@ -120,7 +120,7 @@ def _evaluate_2D_rc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 else:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
     return b
 
@@ -156,7 +156,7 @@ def _evaluate_2D_cr1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 else:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
 
     return b
@@ -276,7 +276,7 @@ def _evaluate_3D_ccc1(np.ndarray[real_t, ndim=1] b,
                     b[i] += p
                     if r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
 
     return b
@@ -341,7 +341,7 @@ def _evaluate_3D_rcc1(np.ndarray[real_t, ndim=1] b,
                         ii = l + start
                     else:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -387,7 +387,7 @@ def _evaluate_3D_crc1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     else:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -431,7 +431,7 @@ def _evaluate_3D_ccr1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     else:
                         ii = l + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -456,7 +456,7 @@ def _evaluate_3D_rrc1(np.ndarray[real_t, ndim=1] b,
                     #p = P0[i, k]*P1[i, l]*(u[k, l, m].real*p0.real - u[k, l, m].imag*p0.imag)
                     b[i] += p
                     ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -481,7 +481,7 @@ def _evaluate_3D_rcr1(np.ndarray[real_t, ndim=1] b,
                     #p = P0[i, k]*P1[i, l]*(u[k, l, m].real*p0.real - u[k, l, m].imag*p0.imag)
                     b[i] += p
                     ii = l + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -506,7 +506,7 @@ def _evaluate_3D_crr1(np.ndarray[real_t, ndim=1] b,
                     #p = P0[i, k]*P1[i, l]*(u[k, l, m].real*p0.real - u[k, l, m].imag*p0.imag)
                     b[i] += p
                     ii = k + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -600,7 +600,7 @@ def _evaluate_lm_2D_cc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 elif r2c == 1:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
     return b
 
@@ -617,7 +617,7 @@ def _evaluate_lm_2D_rc0(np.ndarray[complex_t, ndim=1] b,
     cdef np.ndarray[real_t, ndim=1] P0 = np.zeros(x0.shape[0], dtype=float)
     assert r2c < 0
     for k in range(u.shape[0]):
-        P0 = bases[0].evaluate_basis(x0, k, P0)
+        P0 = bases[0].evaluate_basis(x0, int(w0[k]), P0)
         for l in range(u.shape[1]):
             for i in range(b.shape[0]):
                 #b[i] += u[k, l] * P0[i] * exp(1j*w1[l]*x1[i])
@@ -644,7 +644,7 @@ def _evaluate_lm_2D_rc1(np.ndarray[real_t, ndim=1] b,
     cdef real_t p, xx, yc, ys, ur, ui
     cdef np.ndarray[real_t, ndim=1] P0 = np.zeros(x0.shape[0], dtype=float)
     for k in range(u.shape[0]):
-        P0 = bases[0].evaluate_basis(x0, k, P0)
+        P0 = bases[0].evaluate_basis(x0, int(w0[k]), P0)
         for l in range(u.shape[1]):
             for i in range(b.shape[0]):
                 #p = (u[k, l] * P0[i] * exp(1j*w1[l]*x1[i])).real
@@ -659,7 +659,7 @@ def _evaluate_lm_2D_rc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 elif r2c == 1:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
     return b
 
@@ -676,7 +676,7 @@ def _evaluate_lm_2D_cr0(np.ndarray[complex_t, ndim=1] b,
     cdef np.ndarray[real_t, ndim=1] P0 = np.zeros(x0.shape[0], dtype=float)
 
     for l in range(u.shape[1]):
-        P0 = bases[1].evaluate_basis(x1, l, P0)
+        P0 = bases[1].evaluate_basis(x1, int(w1[l]), P0)
         for k in range(u.shape[0]):
             for i in range(b.shape[0]):
                 #b[i] += u[k, l] * P0[i] * exp(1j*w0[k]*x0[i])
@@ -703,7 +703,7 @@ def _evaluate_lm_2D_cr1(np.ndarray[real_t, ndim=1] b,
     cdef np.ndarray[real_t, ndim=1] P0 = np.zeros(x0.shape[0], dtype=float)
 
     for l in range(u.shape[1]):
-        P0 = bases[1].evaluate_basis(x1, l, P0)
+        P0 = bases[1].evaluate_basis(x1, int(w1[l]), P0)
         for k in range(u.shape[0]):
             for i in range(b.shape[0]):
                 #p = (u[k, l] * P0[i] * exp(1j*w0[k]*x0[i])).real
@@ -718,7 +718,7 @@ def _evaluate_lm_2D_cr1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 elif r2c == 1:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
     return b
 
@@ -816,7 +816,7 @@ def _evaluate_lm_3D_ccc1(np.ndarray[real_t, ndim=1] b,
                         ii = l + start
                     elif r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -836,7 +836,7 @@ def _evaluate_lm_3D_rcc0(np.ndarray[complex_t, ndim=1] b,
     assert r2c == 1 or r2c == 2 or r2c < 0
 
     for k in range(u.shape[0]):
-        P0 = bases[0].evaluate_basis(x0, k, P0)
+        P0 = bases[0].evaluate_basis(x0, int(w0[k]), P0)
         for l in range(u.shape[1]):
             for m in range(u.shape[2]):
                 for i in range(b.shape[0]):
@@ -867,7 +867,7 @@ def _evaluate_lm_3D_rcc1(np.ndarray[real_t, ndim=1] b,
     assert r2c == 1 or r2c == 2
 
     for k in range(u.shape[0]):
-        P0 = bases[0].evaluate_basis(x0, k, P0)
+        P0 = bases[0].evaluate_basis(x0, int(w0[k]), P0)
         for l in range(u.shape[1]):
             for m in range(u.shape[2]):
                 for i in range(b.shape[0]):
@@ -883,7 +883,7 @@ def _evaluate_lm_3D_rcc1(np.ndarray[real_t, ndim=1] b,
                         ii = l + start
                     elif r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -903,7 +903,7 @@ def _evaluate_lm_3D_crc0(np.ndarray[complex_t, ndim=1] b,
     assert r2c < 0
 
     for l in range(u.shape[1]):
-        P0 = bases[1].evaluate_basis(x1, l, P0)
+        P0 = bases[1].evaluate_basis(x1, int(w1[l]), P0)
         for k in range(u.shape[0]):
             for m in range(u.shape[2]):
                 for i in range(b.shape[0]):
@@ -933,12 +933,12 @@ def _evaluate_lm_3D_crc1(np.ndarray[real_t, ndim=1] b,
     assert r2c == 0 or r2c == 2
 
     for l in range(u.shape[1]):
-        P0 = bases[1].evaluate_basis(x1, l, P0)
+        P0 = bases[1].evaluate_basis(x1, int(w1[l]), P0)
         for k in range(u.shape[0]):
             for m in range(u.shape[2]):
                 for i in range(b.shape[0]):
-                    #p = (u[k, l, m] * P0[i] * exp(1j*(w0[k]*x0[i] + w1[m]*x2[i]))).real
-                    y2 = w0[k]*x0[i] + w1[m]*x2[i]
+                    #p = (u[k, l, m] * P0[i] * exp(1j*(w0[k]*x0[i] + w2[m]*x2[i]))).real
+                    y2 = w0[k]*x0[i] + w2[m]*x2[i]
                     yc = cos(y2)
                     ys = sin(y2)
                     ur = u[k, l, m].real
@@ -949,7 +949,7 @@ def _evaluate_lm_3D_crc1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     elif r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -969,7 +969,7 @@ def _evaluate_lm_3D_ccr0(np.ndarray[complex_t, ndim=1] b,
     assert r2c < 0
 
     for m in range(u.shape[2]):
-        P0 = bases[2].evaluate_basis(x2, m, P0)
+        P0 = bases[2].evaluate_basis(x2, int(w2[m]), P0)
         for k in range(u.shape[0]):
             for l in range(u.shape[1]):
                 for i in range(b.shape[0]):
@@ -1000,7 +1000,7 @@ def _evaluate_lm_3D_ccr1(np.ndarray[real_t, ndim=1] b,
     assert r2c == 0 or r2c == 1
 
     for m in range(u.shape[2]):
-        P0 = bases[2].evaluate_basis(x2, m, P0)
+        P0 = bases[2].evaluate_basis(x2, int(w2[m]), P0)
         for k in range(u.shape[0]):
             for l in range(u.shape[1]):
                 for i in range(b.shape[0]):
@@ -1016,6 +1016,6 @@ def _evaluate_lm_3D_ccr1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     elif r2c == 1:
                         ii = l + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index e36bb28..4147a07 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -813,7 +813,8 @@ class TensorProductSpace(PFFT):
                     last_conj_index = M
                 sl = self.local_slice()[axis].start
             x.append(base.map_reference_domain(points[axis]))
-            w.append(base.wavenumbers(bcast=False)[self.local_slice()[axis]].astype(float))
+            k = base.wavenumbers(bcast=False) if base.family() == 'fourier' else np.arange(base.N)
+            w.append(k[self.local_slice()[axis]].astype(float))
 
         if len(self) == 2:
             output_array = cython.evaluate.evaluate_lm_2D(list(self.bases), output_array, coefficients, x[0], x[1], w[0], w[1], r2c, last_conj_index, sl)
-- 
2.43.0


From 0d56aa16dcf01adac1edf77072f8caec4abae2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 10/71] fix: evaluation of expressions at points: boundary
 values, several processes, composite spaces

---
 shenfun/forms/arguments.py | 11 +++++++----
 shenfun/fourier/bases.py   |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index bc09361..8919a5a 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -756,11 +756,11 @@ class Expr:
                 sl = -1
                 for axis, k in enumerate(b0):
                     xx = np.atleast_1d(test_sp[axis].map_reference_domain(np.squeeze(x[axis])))
-                    P = test_sp[axis].evaluate_basis_derivative_all(xx, k=k)
+                    P = test_sp[axis].evaluate_basis_derivative_all(xx, k=k, argument=1)
                     if not test_sp[axis].domain_factor() == 1:
-                        P *= test_sp[axis].domain_factor()**(k)
+                        P = P*float(test_sp[axis].domain_factor())**k
                     if len(x) > 1:
-                        M.append(P[..., V.local_slice()[axis]])
+                        M.append(P[..., test_sp.local_slice()[axis]])
 
                     if isinstance(test_sp[axis], R2C) and len(x) > 1:
                         r2c = axis
@@ -769,7 +769,7 @@ class Expr:
                             last_conj_index = m-1
                         else:
                             last_conj_index = m
-                        sl = V.local_slice()[axis].start
+                        sl = test_sp.local_slice()[axis].start
 
                 bv = basis if basis.tensor_rank == 0 else basis[ind[base_j]]
                 work.fill(0)
@@ -782,6 +782,9 @@ class Expr:
                 elif len(x) == 3:
                     work = cython.evaluate.evaluate_3D(work, bv, M, r2c, last_conj_index, sl)
 
+                if len(x) > 1:
+                    work[:] = test_sp._sum_over_processes(work)
+
                 sc = self.scales()[vec][base_j]
                 if not hasattr(sc, 'free_symbols'):
                     sc = float(sc)
diff --git a/shenfun/fourier/bases.py b/shenfun/fourier/bases.py
index d472e31..78603e9 100644
--- a/shenfun/fourier/bases.py
+++ b/shenfun/fourier/bases.py
@@ -120,7 +120,7 @@ class FourierBase(SpectralBase):
         x = np.atleast_1d(x)
         return np.exp(1j*x[:, np.newaxis]*k[np.newaxis, :])
 
-    def evaluate_basis_derivative_all(self, x=None, k=0):
+    def evaluate_basis_derivative_all(self, x=None, k=0, argument=0):
         V = self.evaluate_basis_all(x=x)
         if k > 0:
             l = self.wavenumbers(bcast=False, scaled=False, eliminate_highest_freq=False)
-- 
2.43.0


From 983da2b7b66d359eef3aa2c9132e9c20103647da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 11/71] fix: energy_fourier for derived spaces, small local
 arrays and 1D spaces of even size

---
 shenfun/fourier/__init__.py | 72 ++++++++++---------------------------
 1 file changed, 18 insertions(+), 54 deletions(-)

diff --git a/shenfun/fourier/__init__.py b/shenfun/fourier/__init__.py
index f5d9b0d..ea6ac81 100644
--- a/shenfun/fourier/__init__.py
+++ b/shenfun/fourier/__init__.py
@@ -25,19 +25,14 @@ def energy_fourier(u, T):
         # Just a 1D basis
         assert u.ndim == 1
         if isinstance(T, R2C):
-            if u.shape[0] % 2 == 0:
-                result = (2*np.sum(abs(u[1:-1])**2) +
-                          np.sum(abs(u[0])**2) +
-                          np.sum(abs(u[-1])**2))
-            else:
-                result = (2*np.sum(abs(u[1:])**2) +
-                          np.sum(abs(u[0])**2))
+            result = (2*np.sum(abs(u)**2) - np.sum(abs(u[0])**2))
+            if T.N % 2 == 0:
+                result -= np.sum(abs(u[-1])**2)
 
         else:
             result = np.sum(abs(u)**2)
         return result
 
-    comm = T.comm
     assert np.all([base.family() == 'fourier' for base in T.bases])
     real = False
     for axis, base in enumerate(T.bases):
@@ -45,50 +40,19 @@ def energy_fourier(u, T):
             real = True
             break
 
+    e = abs(np.asarray(u))**2
     if real:
-        s = [slice(None)]*u.ndim
-        uaxis = axis + u.ndim-len(T.bases)
-        if T.forward.output_pencil.subcomm[axis].Get_size() == 1:
-            # aligned in r2c direction
-            if base.N % 2 == 0:
-                s[uaxis] = slice(1, -1)
-                result = 2*np.sum(abs(u[tuple(s)])**2)
-                s[uaxis] = 0
-                result += np.sum(abs(u[tuple(s)])**2)
-                s[uaxis] = -1
-                result += np.sum(abs(u[tuple(s)])**2)
-            else:
-                s[uaxis] = slice(1, None)
-                result = 2*np.sum(abs(u[tuple(s)])**2)
-                s[uaxis] = 0
-                result += np.sum(abs(u[tuple(s)])**2)
-
-        else:
-            # Data not aligned along r2c axis. Need to check about 0 and -1
-            if base.N % 2 == 0:
-                s[uaxis] = slice(1, -1)
-                result = 2*np.sum(abs(u[tuple(s)])**2)
-                s[uaxis] = 0
-                if T.local_slice(True)[axis].start == 0:
-                    result += np.sum(abs(u[tuple(s)])**2)
-                else:
-                    result += 2*np.sum(abs(u[tuple(s)])**2)
-                s[uaxis] = -1
-                if T.local_slice(True)[axis].stop == T.dims()[axis]:
-                    result += np.sum(abs(u[tuple(s)])**2)
-                else:
-                    result += 2*np.sum(abs(u[tuple(s)])**2)
-            else:
-                s[uaxis] = slice(1, None)
-                result = 2*np.sum(abs(u[tuple(s)])**2)
-                s[uaxis] = 0
-                if T.local_slice(True)[axis].start == 0:
-                    result += np.sum(abs(u[tuple(s)])**2)
-                else:
-                    result += 2*np.sum(abs(u[tuple(s)])**2)
-
-    else:
-        result = np.sum(abs(u[...])**2)
-
-    result = comm.allreduce(result)
-    return result
+        # All modes apart from 0 (and N/2 for even N) represent two
+        # conjugate modes. Note that the local arrays may be as small as one
+        # mode along axis, and do not need to contain any of the edges.
+        sl = T.local_slice(True)[axis]
+        weight = np.full(sl.stop-sl.start, 2)
+        k = np.arange(sl.start, sl.stop)
+        weight[k == 0] = 1
+        if base.N % 2 == 0:
+            weight[k == base.N//2] = 1
+        s = [np.newaxis]*u.ndim
+        s[axis + u.ndim-len(T.bases)] = slice(None)
+        e = e*weight[tuple(s)]
+
+    return T._sum_over_processes(np.sum(e))
-- 
2.43.0


From 56dee1842ae2e57cc3c0757a120816c1f2138da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 12/71] fix: low-memory evaluation in complex 3D Fourier spaces
 accepts and returns ordinary arrays

---
 shenfun/optimization/cython/evaluate.pyx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/shenfun/optimization/cython/evaluate.pyx b/shenfun/optimization/cython/evaluate.pyx
index 391add9..a7f2623 100644
--- a/shenfun/optimization/cython/evaluate.pyx
+++ b/shenfun/optimization/cython/evaluate.pyx
@@ -754,14 +754,14 @@ def evaluate_lm_3D(list bases, b, u, x0, x1, x2, w0, w1, w2, int r2c, int M, int
 
     return b
 
-def _evaluate_lm_3D_ccc0(complex_t[::1] b,
-                         complex_t[:, :, ::1] u,
-                         real_t[::1] x0,
-                         real_t[::1] x1,
-                         real_t[::1] x2,
-                         real_t[::1] w0,
-                         real_t[::1] w1,
-                         real_t[::1] w2,
+def _evaluate_lm_3D_ccc0(np.ndarray[complex_t, ndim=1] b,
+                         np.ndarray[complex_t, ndim=3] u,
+                         np.ndarray[real_t, ndim=1] x0,
+                         np.ndarray[real_t, ndim=1] x1,
+                         np.ndarray[real_t, ndim=1] x2,
+                         np.ndarray[real_t, ndim=1] w0,
+                         np.ndarray[real_t, ndim=1] w1,
+                         np.ndarray[real_t, ndim=1] w2,
                          int r2c, int M, int start):
     cdef int k, l, m, i
     cdef double xx, y0, y1, yc, ys, br, bi, ur, ui
-- 
2.43.0


From 34d1189b45a2ddabe9ffb2eb00d480711e27ed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:42 +0000
Subject: [PATCH 13/71] fix: matrix-vector products with several non-periodic
 axes: any number, test and trial of different size, separate communicators

---
 shenfun/matrixbase.py | 73 +++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 31 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 8b504fa..dd960b0 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -10,9 +10,10 @@ from numbers import Number
 import numpy as np
 import sympy as sp
 from scipy.sparse import bmat, spmatrix, dia_matrix, csr_matrix, kron, \
-    diags as sp_diags
+    diags as sp_diags, eye as sp_eye
 from scipy.integrate import quad
 from mpi4py import MPI
+from mpi4py_fft.pencil import Pencil
 from shenfun.config import config
 from .utilities import integrate_sympy
 
@@ -1439,7 +1440,7 @@ class TPMatrix:
         c.fill(0)
         if len(tpmat.naxes) == 0:
             c[:] = tpmat.scale*v
-        elif len(tpmat.naxes) == 1:
+        elif len(tpmat.naxes) == 1 and tpmat.space.forward.output_pencil.subcomm[tpmat.naxes[0]].Get_size() == 1:
             axis = tpmat.naxes[0]
             rank = v.rank if hasattr(v, 'rank') else 0
             if rank == 0:
@@ -1447,36 +1448,46 @@ class TPMatrix:
             else:
                 c = tpmat.pmat.matvec(v[tpmat.global_index[1]], c, format=format, axis=axis)
             c[:] = c*tpmat.scale
-        elif len(tpmat.naxes) == 2:
-            # 2 non-periodic directions (may be non-aligned in second axis, hence transfers)
-            npaxes = deepcopy(list(tpmat.naxes))
-            space = tpmat.space
-            newspace = False
-            if space.forward.input_array.shape != space.forward.output_array.shape:
-                space = space.get_unplanned(True) # in case self.space is padded
-                newspace = True
-
-            pencilA = space.forward.output_pencil
-            subcomms = [s.Get_size() for s in pencilA.subcomm]
-            axis = pencilA.axis
-            assert subcomms[axis] == 1
-            npaxes.remove(axis)
-            second_axis = npaxes[0]
-            pencilB = pencilA.pencil(second_axis)
-            transAB = pencilA.transfer(pencilB, c.dtype.char)
-            cB = np.zeros(transAB.subshapeB, dtype=c.dtype)
-            cC = np.zeros(transAB.subshapeB, dtype=c.dtype)
-            bb = tpmat.mats[axis]
-            c = bb.matvec(v, c, format=format, axis=axis)
-            # align in second non-periodic axis
-            transAB.forward(c, cB)
-            bb = tpmat.mats[second_axis]
-            cC = bb.matvec(cB, cC, format=format, axis=second_axis)
-            transAB.backward(cC, c)
+        else:
+            # Non-periodic directions that may be distributed, hence transfers.
+            # Note that pencils are created for the shape of the coefficients,
+            # since self.space may be padded, and since the test and trial
+            # functions may be of different shape.
+            pencil = tpmat.space.forward.output_pencil
+            subcomm = pencil.subcomm
+            if hasattr(v, 'rank') and v.rank > 0:
+                v = v[tpmat.global_index[1]]
+            npaxes = list(tpmat.naxes)
+            if pencil.axis in npaxes: # Start with the aligned axis
+                npaxes.remove(pencil.axis)
+                npaxes.insert(0, pencil.axis)
+            shape = [subcomm[i].allreduce(n) for i, n in enumerate(v.shape)]
+            cA = np.array(v, dtype=c.dtype)
+            for axis in npaxes:
+                bb = tpmat.mats[axis]
+                cB = cA
+                if axis != pencil.axis:
+                    # align in axis
+                    pencilA = Pencil(subcomm, shape, pencil.axis)
+                    pencilB = pencilA.pencil(axis)
+                    transAB = pencilA.transfer(pencilB, c.dtype.char)
+                    cB = np.zeros(pencilB.subshape, dtype=c.dtype)
+                    transAB.forward(cA, cB)
+                    transAB.destroy()
+                M = bb.testfunction[0].shape(True)
+                cC = np.zeros(cB.shape[:axis]+(M,)+cB.shape[axis+1:], dtype=c.dtype)
+                cC = bb.matvec(cB, cC, format=format, axis=axis)
+                shape[axis] = M
+                cA = cC
+                if axis != pencil.axis:
+                    pencilA = Pencil(subcomm, shape, pencil.axis)
+                    pencilB = pencilA.pencil(axis)
+                    transAB = pencilA.transfer(pencilB, c.dtype.char)
+                    cA = np.zeros(pencilA.subshape, dtype=c.dtype)
+                    transAB.backward(cC, cA)
+                    transAB.destroy()
+            c[:] = cA
             c *= tpmat.scale
-            transAB.destroy()
-            if newspace:
-                space.destroy()
 
         return c
 
-- 
2.43.0


From ccfb3ae3c53acc6cf14b1ee5badcc89197ce79bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 14/71] fix: block matrix-vector products with distributed
 axes, several or only periodic axes, and test and trial spaces of different
 rank

---
 shenfun/matrixbase.py         | 47 ++++++++++++++++++-----------------
 shenfun/tensorproductspace.py |  2 +-
 2 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index dd960b0..4b82ef5 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1070,36 +1070,38 @@ class BlockMatrix:
         """
         assert v.function_space() == self.trialbase
         assert c.function_space() == self.testbase
-        nvars = c.function_space().num_components()
-        c = np.expand_dims(c, 0) if nvars == 1 else c
-        v = np.expand_dims(v, 0) if nvars == 1 else v
+        nvarc = c.function_space().num_components()
+        nvarv = v.function_space().num_components()
+        c = np.expand_dims(c, 0) if nvarc == 1 else c
+        v = np.expand_dims(v, 0) if nvarv == 1 else v
         c.v.fill(0)
         use_scipy = config['matrix']['block']['use_scipy'] if use_scipy is None else use_scipy
         if self.contains_bc_matrix():
             use_scipy = False
+        if use_scipy and self.testbase.dimensions > 1:
+            # Need at least one non-diagonal axis, and all of them local
+            naxes = self.get_mats(True).naxes
+            subcomm = self.testbase.forward.output_pencil.subcomm
+            if len(naxes) == 0 or np.any([subcomm[axis].Get_size() > 1 for axis in naxes]):
+                use_scipy = False
 
         if use_scipy:
             self.assemble(format)
             daxes = self.testbase.get_diagonal_axes()
-            if len(daxes) == self.testbase.dimensions:
-                # Only Fourier
-                assert isinstance(self._Ai, spmatrix)
-                c.flatten()[:] = self._Ai * v.flatten()
-            else:
+            if len(daxes) > 0:
+                daxes += 1
+            sl1, dims1 = self.trialbase._get_ndiag_slices_and_dims()
+            sl2, dims2 = self.testbase._get_ndiag_slices_and_dims()
+            gi = np.zeros(dims1[-1], dtype=v.dtype)
+            go = np.zeros(dims2[-1], dtype=v.dtype)
+            for key, val in self._Ai.items():
+                key = np.atleast_1d(key)
                 if len(daxes) > 0:
-                    daxes += 1
-                sl1, dims1 = self.trialbase._get_ndiag_slices_and_dims()
-                sl2, dims2 = self.testbase._get_ndiag_slices_and_dims()
-                gi = np.zeros(dims1[-1], dtype=v.dtype)
-                go = np.zeros(dims2[-1], dtype=v.dtype)
-                for key, val in self._Ai.items():
-                    key = np.atleast_1d(key)
-                    if len(daxes) > 0:
-                        sl1.T[daxes] = np.array(key)[:, None]
-                        sl2.T[daxes] = np.array(key)[:, None]
-                    gi = v.copy_to_flattened(gi, key, dims1, sl1)
-                    go[:] = val * gi
-                    c = c.copy_from_flattened(go, key, dims2, sl2)
+                    sl1.T[daxes] = np.array(key)[:, None]
+                    sl2.T[daxes] = np.array(key)[:, None]
+                gi = v.copy_to_flattened(gi, key, dims1, sl1)
+                go[:] = val * gi
+                c = c.copy_from_flattened(go, key, dims2, sl2)
 
         else:
             z = np.zeros_like(c.v[0])
@@ -1113,8 +1115,7 @@ class BlockMatrix:
                             z.fill(0)
                             z = m.matvec(v.v[j], z, format=format)
                             c.v[i] += z
-        c = c.reshape(c.shape[1:]) if nvars == 1 else c
-        v = v.reshape(v.shape[1:]) if nvars == 1 else v
+        c = c.reshape(c.shape[1:]) if nvarc == 1 else c
         return c
 
     def __getitem__(self, ij):
diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 4147a07..f9fd71b 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -1373,7 +1373,7 @@ class TensorProductSpace(PFFT):
         assert len(j) == len(daxes)
         sa = np.array(sl)
         if len(daxes) > 0:
-            sa.T[daxes] = j if isinstance(j, int) else np.array(j)[:, None]
+            sa[daxes] = j
         return np.atleast_2d(sa)
 
     def _get_ndiag_slices_and_dims(self, j=()):
-- 
2.43.0


From 438acfb722e0081f8c5fcd1edda7255d6c94a7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 15/71] fix: assembly of matrices with polynomial weight and
 derivative of the test function

---
 shenfun/matrixbase.py | 72 +++++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 37 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 4b82ef5..80fc517 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1978,11 +1978,23 @@ def assemble_stencil(test, trial, measure=1):
         return _assemble_stencil_bc(test, trial, measure)
     return _assemble_stencil(test, trial, measure)
 
+def _stencil_derivative(Tv, k):
+    """Return matrix of the k'th derivatives of the orthogonal basis
+    functions of ``Tv``, expanded in the same basis functions"""
+    from shenfun.spectralbase import inner_product, get_norm_sq
+    if k == 0:
+        return sp_eye(Tv.N, format='csr')
+    D = inner_product((Tv, k), (Tv, 0))
+    return D.diags('csr') * sp_diags([1/get_norm_sq(Tv, Tv, 'exact')], [0], format='csr')
+
 def _assemble_stencil_bc(test, trial, measure=1):
     from shenfun.spectralbase import inner_product
     Tv = test[0].get_orthogonal(domain=(-1, 1))
     Tu = trial[0].get_orthogonal(domain=(-1, 1))
-    B = inner_product((Tv, test[1]), (Tu, trial[1]))
+    if measure != 1 and test[1] > 0:
+        B = inner_product((Tv, 0), (Tu, trial[1]))
+    else:
+        B = inner_product((Tv, test[1]), (Tu, trial[1]))
     if len(B) == 0:
         return {}
     K = test[0].stencil_matrix()
@@ -2004,12 +2016,12 @@ def _assemble_stencil_bc(test, trial, measure=1):
             qi = sp.degree(msi)
             Ax = pmat(a, qi, alpha, beta, test[0].N, test[0].N, gn)
             A = A + sc*Ax.diags('csr')
-        A = K.diags('csr') * A.T * B.diags('csr') * S
+        A = K.diags('csr') * _stencil_derivative(Tv, test[1]) * A.T * B.diags('csr') * S
     else:
         A = K.diags('csr') * B.diags('csr') * S
     M = B.shape[1]
     K.shape = (test[0].N, test[0].N)
-    d = extract_diagonal_matrix(A, lowerband=M+q, upperband=M)
+    d = extract_diagonal_matrix(A, lowerband=M+q if test[1] == 0 else None, upperband=M)
     d = d._storage
     return d
 
@@ -2021,7 +2033,10 @@ def _assemble_stencil(test, trial, measure=1):
     beta = test[0].beta
     gn = test[0].gn
     # This needs to be either implemented or quadrature:
-    B = inner_product((Tv, test[1]), (Tu, trial[1]))
+    if measure != 1 and test[1] > 0:
+        B = inner_product((Tv, 0), (Tu, trial[1]))
+    else:
+        B = inner_product((Tv, test[1]), (Tu, trial[1]))
     K = test[0].stencil_matrix()
     q = sp.degree(measure)
 
@@ -2039,7 +2054,7 @@ def _assemble_stencil(test, trial, measure=1):
             qi = sp.degree(msi)
             Ax = pmat(a, qi, alpha, beta, test[0].N, test[0].N, gn)
             A = A + sc*Ax.diags('csr')
-        A = K.diags('csr') * A.T * B.diags('csr') * S.diags('csr').T
+        A = K.diags('csr') * _stencil_derivative(Tv, test[1]) * A.T * B.diags('csr') * S.diags('csr').T
     else:
         A = K.diags('csr') * B.diags('csr') * S.diags('csr').T
 
@@ -2053,29 +2068,15 @@ def _assemble_stencil(test, trial, measure=1):
         d = extract_diagonal_matrix(A, lowerband=lb, upperband=ub)
     else:
         # compute the sparsity pattern
-        Ac = A.tocsc()
-        ub = Ac.getrow(0).indices
-        ub2 = Ac.getrow(1).indices
-        if len(ub) == 0 and len(ub2) == 0:
-            ub = 0
-        else:
-            ub = trial[0].dim() if len(ub) == 0 else ub.max()
-            ub2 = trial[0].dim() if len(ub2) == 0 else ub2.max()-1
-            ub = max(ub, ub2)
-
-        lb = Ac.getcol(0).indices
-        lb2 = Ac.getcol(1).indices
-        if len(lb) == 0 and len(lb2) == 0:
-            lb = 0
-        else:
-            lb = test[0].dim() if len(lb) == 0 else lb.max()
-            lb2 = test[0].dim() if len(lb2) == 0 else lb2.max()-1
-            lb = max(lb, lb2)
+        row, col = A.nonzero()
+        ub = max(0, (col-row).max()) if len(row) > 0 else 0
+        lb = max(0, (row-col).max()) if len(row) > 0 else 0
         d = extract_diagonal_matrix(A, lowerband=lb, upperband=ub)
     d = d._storage
     return d
 
 def assemble_phi(test, trial, measure=1):
+    assert test[1] == 0, 'Derivatives of the test function are not implemented'
     assert test[0].short_name() in ('P1', 'P2', 'P3', 'P4', 'P6')
     if trial[0].is_boundary_basis:
         return _assemble_phi_bc(test, trial, measure)
@@ -2125,21 +2126,18 @@ def _assemble_phi_bc(test, trial, measure=1):
     k = (test[0].N-test[0].dim())//2
     l = k-trial[1]
     assert l >= 0
+    assert k <= N
     D = sp.S(0)
-    if k <= N:
-        for dv in split(measure, expand=True):
-            sc = dv['coeff']
-            msi = dv['x']
-            assert sp.sympify(msi).is_polynomial()
-            qi = sp.degree(msi)
-            Ax = Lmat(k, qi, l, M, N, alpha, beta, gn)
-            D = D + sc*Ax
-    if D is sp.S.Zero:
-        d = {0: 1}
-    else:
-        K = trial[0].stencil_matrix()
-        d = extract_diagonal_matrix(D*extract_diagonal_matrix(K).diags('csr').T, lowerband=N+q, upperband=N)
-        d = d._storage
+    for dv in split(measure, expand=True):
+        sc = dv['coeff']
+        msi = dv['x']
+        assert sp.sympify(msi).is_polynomial()
+        qi = sp.degree(msi)
+        Ax = Lmat(k, qi, l, M, N, alpha, beta, gn)
+        D = D + sc*Ax
+    K = trial[0].stencil_matrix()
+    d = extract_diagonal_matrix(D*extract_diagonal_matrix(K).diags('csr').T, lowerband=N+q, upperband=N)
+    d = d._storage
     return d
 
 def assemble_sympy(test, trial, measure=1, implicit=True, assemble='exact'):
-- 
2.43.0


From fb83dac1137fbc33a8ada4c33b5718544f49e3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 16/71] fix: Legendre derivative matrices of non-square shape

---
 shenfun/legendre/matrices.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/shenfun/legendre/matrices.py b/shenfun/legendre/matrices.py
index 1bd97ef..87256e0 100644
--- a/shenfun/legendre/matrices.py
+++ b/shenfun/legendre/matrices.py
@@ -400,16 +400,16 @@ class ALLmat(SpectralMatrix):
         assert isinstance(test[0], L)
         assert isinstance(trial[0], L)
         M, N = test[0].N, trial[0].N
-        k = np.arange(min(M, N), dtype=float)
         self._keyscale = 1
         def _getkey(i):
             j = abs(i)
-            return self._keyscale*((k[:-j]+0.5)*(k[j:]*(k[j:]+1) - k[:-j]*(k[:-j]+1))*2./(2*k[:-j]+1))
+            k = np.arange(min(M, N-i) if i > 0 else min(M+i, N), dtype=float)
+            return self._keyscale*((k+0.5)*((k+j)*(k+j+1) - k*(k+1))*2./(2*k+1))
 
         if trial[1]:
             d = dict.fromkeys(np.arange(2, N, 2), _getkey)
         else:
-            d = dict.fromkeys(-np.arange(2, N, 2), _getkey)
+            d = dict.fromkeys(-np.arange(2, M, 2), _getkey)
         return d
 
     #def matvec(self, v, c, format='cython', axis=0):
@@ -506,12 +506,12 @@ class CLLmatT(SpectralMatrix):
         test, trial = self.testfunction, self.trialfunction
         assert isinstance(test[0], L)
         assert isinstance(trial[0], L)
-        N = trial[0].N
+        M = test[0].N
         self._keyscale = 1
         def _getkey(i):
             return 2*self._keyscale
 
-        d = dict.fromkeys(-np.arange(1, N, 2), _getkey)
+        d = dict.fromkeys(-np.arange(1, M, 2), _getkey)
         return d
 
 class CLSDmat(SpectralMatrix):
-- 
2.43.0


From 463d5cf41489d75ab7cef1adf315738c0b445379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 17/71] fix: banded matrix-vector kernels reading past the end
 of short diagonals

---
 shenfun/optimization/cython/Matvec.pyx | 38 +++++++++++---------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/shenfun/optimization/cython/Matvec.pyx b/shenfun/optimization/cython/Matvec.pyx
index a0d8c43..a9c76c4 100644
--- a/shenfun/optimization/cython/Matvec.pyx
+++ b/shenfun/optimization/cython/Matvec.pyx
@@ -440,14 +440,12 @@ cdef void Tridiagonal_matvec_ptr(T* const v,
         double* ud = c0.ud
         int M = c0.N
 
-    b[0] = dd[0]*v[0] + ud[0]*v[2*st]
-    b[st] = dd[1]*v[st] + ud[1]*v[3*st]
-    for i in range(2, M-2):
-        b[i*st] = ld[i-2]*v[(i-2)*st] + dd[i]*v[i*st] + ud[i]*v[(i+2)*st]
-    i = M-2
-    b[i*st] = ld[i-2]*v[(i-2)*st] + dd[i]*v[i*st]
-    i = M-1
-    b[i*st] = ld[i-2]* v[(i-2)*st] + dd[i]*v[i*st]
+    for i in range(M):
+        b[i*st] = dd[i]*v[i*st]
+        if i >= 2:
+            b[i*st] = b[i*st] + ld[i-2]*v[(i-2)*st]
+        if i < M-2:
+            b[i*st] = b[i*st] + ud[i]*v[(i+2)*st]
 
 cpdef Tridiagonal_matvec(np.ndarray v, np.ndarray b, int axis, double[::1] ld, double[::1] dd, double[::1] ud):
     cdef:
@@ -484,20 +482,16 @@ cdef void Pentadiagonal_matvec_ptr(T* const v,
         double* udd = c0.udd
         int M = c0.N
 
-    b[0] = dd[0]*v[0] + ud[0]*v[2*st] + udd[0]*v[4*st]
-    b[1*st] = dd[1]*v[1*st] + ud[1]*v[3*st] + udd[1]*v[5*st]
-    b[2*st] = ld[0]*v[0] + dd[2]*v[2*st] + ud[2]*v[4*st] + udd[2]*v[6*st]
-    b[3*st] = ld[1]*v[1*st] + dd[3]*v[3*st] + ud[3]*v[5*st] + udd[3]*v[7*st]
-    for i in range(4, M-4):
-        b[i*st] = ldd[i-4]*v[(i-4)*st] + ld[i-2]*v[(i-2)*st] + dd[i]*v[i*st] + ud[i]*v[(i+2)*st] + udd[i]*v[(i+4)*st]
-    i = M-4
-    b[i*st] = ldd[i-4]*v[(i-4)*st] + ld[i-2]*v[(i-2)*st] + dd[i]*v[i*st] + ud[i]*v[(i+2)*st]
-    i = M-3
-    b[i*st] = ldd[i-4]*v[(i-4)*st] + ld[i-2]*v[(i-2)*st] + dd[i]*v[i*st] + ud[i]*v[(i+2)*st]
-    i = M-2
-    b[i*st] = ldd[i-4]*v[(i-4)*st] + ld[i-2]*v[(i-2)*st] + dd[i]*v[i*st]
-    i = M-1
-    b[i*st] = ldd[i-4]*v[(i-4)*st] + ld[i-2]*v[(i-2)*st] + dd[i]*v[i*st]
+    for i in range(M):
+        b[i*st] = dd[i]*v[i*st]
+        if i >= 2:
+            b[i*st] = b[i*st] + ld[i-2]*v[(i-2)*st]
+        if i < M-2:
+            b[i*st] = b[i*st] + ud[i]*v[(i+2)*st]
+        if i >= 4:
+            b[i*st] = b[i*st] + ldd[i-4]*v[(i-4)*st]
+        if i < M-4:
+            b[i*st] = b[i*st] + udd[i]*v[(i+4)*st]
 
 cpdef Pentadiagonal_matvec(np.ndarray v, np.ndarray b, int axis, double[::1] ldd, double[::1] ld, double[::1] dd, double[::1] ud, double[::1] udd):
     cdef:
-- 
2.43.0


From a20994fe9b7d22fb11c980131d641771e81a6f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 18/71] fix: projection to vector spaces with two non-periodic
 axes on more than one process

---
 shenfun/forms/project.py | 47 ++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/shenfun/forms/project.py b/shenfun/forms/project.py
index 6ee83e5..f34835f 100644
--- a/shenfun/forms/project.py
+++ b/shenfun/forms/project.py
@@ -135,33 +135,18 @@ def project(uh, T, output_array=None, fill=True, use_to_ortho=True, use_assign=T
 
         if len(T.get_nonperiodic_axes()) == 2:
             # Means we have two non-periodic directions
-            B = [B] if isinstance(B, TPMatrix) else B
-            npaxes = list(B[0].naxes)
-            assert len(npaxes) == 2
-
-            pencilA = T.forward.output_pencil
-            axis = pencilA.axis
-            npaxes.remove(axis)
-            second_axis = npaxes[0]
-            pencilB = pencilA.pencil(second_axis)
-            transAB = pencilA.transfer(pencilB, output_array.dtype.char)
-            output_arrayB = np.zeros(transAB.subshapeB, dtype=output_array.dtype)
-            output_arrayB2 = np.zeros(transAB.subshapeB, dtype=output_array.dtype)
-            b = B[0].mats[axis]
-            output_array = b.solve(output_array, output_array, axis=axis)
-            transAB.forward(output_array, output_arrayB)
-            b = B[0].mats[second_axis]
-            output_arrayB2 = b.solve(output_arrayB, output_arrayB2, axis=second_axis)
-            transAB.backward(output_arrayB2, output_array)
-            transAB.destroy()
-            return output_array
+            B = B if isinstance(B, TPMatrix) else B[0]
+            return _solve_two_nonperiodic(B, output_array)
 
     if isinstance(B, (TPMatrix, SpectralMatrix)):
         output_array = B.solve(output_array)
 
     elif T.coors.is_orthogonal and (len(output_array) == len(B)):
         for oa, b in zip(output_array.v, B):
-            oa = b.solve(oa, oa)
+            if isinstance(b, TPMatrix) and len(b.naxes) == 2:
+                _solve_two_nonperiodic(b, oa)
+            else:
+                oa = b.solve(oa, oa)
 
     else:
         M = BlockMatrix(B)
@@ -169,6 +154,26 @@ def project(uh, T, output_array=None, fill=True, use_to_ortho=True, use_assign=T
 
     return output_array
 
+def _solve_two_nonperiodic(B, output_array):
+    """Solve in place for one tensor product matrix with two non-diagonal
+    axes, where one of the axes may be distributed"""
+    pencilA = B.space.forward.output_pencil
+    npaxes = list(B.naxes)
+    assert len(npaxes) == 2
+    axis = pencilA.axis
+    npaxes.remove(axis)
+    second_axis = npaxes[0]
+    pencilB = pencilA.pencil(second_axis)
+    transAB = pencilA.transfer(pencilB, output_array.dtype.char)
+    output_arrayB = np.zeros(transAB.subshapeB, dtype=output_array.dtype)
+    output_arrayB2 = np.zeros(transAB.subshapeB, dtype=output_array.dtype)
+    output_array = B.mats[axis].solve(output_array, output_array, axis=axis)
+    transAB.forward(output_array, output_arrayB)
+    output_arrayB2 = B.mats[second_axis].solve(output_arrayB, output_arrayB2, axis=second_axis)
+    transAB.backward(output_arrayB2, output_array)
+    transAB.destroy()
+    return output_array
+
 
 class Project:
     """Return an instance of a class that can perform projections efficiently
-- 
2.43.0


From eff735efeb787750925e221f93892c35c0eb483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 19/71] fix: linear forms with vector or tensor test functions
 and Inner/Project of them

---
 shenfun/forms/inner.py   | 24 +++++++++++-------------
 shenfun/forms/project.py | 12 +++++-------
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/shenfun/forms/inner.py b/shenfun/forms/inner.py
index 527f806..4e1c01c 100644
--- a/shenfun/forms/inner.py
+++ b/shenfun/forms/inner.py
@@ -498,12 +498,11 @@ def inner(expr0, expr1, output_array=None, assemble=None, kind=None, fixed_resol
     # Linear form, return output_array
     wh = np.zeros_like(output_array)
     for b in A:
-        if uh.function_space().is_composite_space and wh.ndim == b.dimensions:
-            wh = b.matvec(uh.v[b.global_index[1]], wh)
-        elif uh.function_space().is_composite_space and wh.ndim > b.dimensions:
-            wh[b.global_index[0]] = b.matvec(uh.v[b.global_index[1]], wh[b.global_index[0]])
+        ui = uh.v[b.global_index[1]] if uh.function_space().is_composite_space else uh
+        if wh.ndim > b.dimensions: # one component of composite test function
+            wh.v[b.global_index[0]] = b.matvec(ui, wh.v[b.global_index[0]])
         else:
-            wh = b.matvec(uh, wh)
+            wh = b.matvec(ui, wh)
         output_array += wh
         wh.fill(0)
     if orthogonal:
@@ -553,15 +552,14 @@ class Inner:
                     V = b.function_space()
                     wh = V.scalar_product(uh, wh)
                     self.output_array += wh
-                elif uh.function_space().is_composite_space and wh.ndim == b.dimensions:
-                    wh = b.matvec(uh.v[b.global_index[1]], wh)
-                    self.output_array += wh
-                elif uh.function_space().is_composite_space and wh.ndim > b.dimensions:
-                    wh[b.global_index[0]] = b.matvec(uh.v[b.global_index[1]], wh[b.global_index[0]])
-                    self.output_array.v[b.global_index[0]] += wh[b.global_index[0]]
                 else:
-                    wh = b.matvec(uh, wh)
-                    self.output_array += wh
+                    ui = uh.v[b.global_index[1]] if uh.function_space().is_composite_space else uh
+                    if wh.ndim > b.dimensions: # one component of composite test function
+                        wi = np.zeros_like(self.output_array.v[b.global_index[0]])
+                        self.output_array.v[b.global_index[0]] += b.matvec(ui, wi)
+                    else:
+                        wh = b.matvec(ui, wh)
+                        self.output_array += wh
                 wh.fill(0)
         return self.output_array
 
diff --git a/shenfun/forms/project.py b/shenfun/forms/project.py
index f34835f..e4b44be 100644
--- a/shenfun/forms/project.py
+++ b/shenfun/forms/project.py
@@ -263,14 +263,12 @@ class Project:
         uh = self.uh.base
         self.output_array.fill(0)
         for b in self.A:
-            if uh.function_space().is_composite_space and wh.ndim == b.dimensions:
-                wh = b.matvec(uh.v[b.global_index[1]], wh)
-                self.output_array += wh
-            elif uh.function_space().is_composite_space and wh.ndim > b.dimensions:
-                wh[b.global_index[0]] = b.matvec(uh.v[b.global_index[1]], wh[b.global_index[0]])
-                self.output_array.v[b.global_index[0]] += wh[b.global_index[0]]
+            ui = uh.v[b.global_index[1]] if uh.function_space().is_composite_space else uh
+            if wh.ndim > b.dimensions: # one component of composite test function
+                wi = np.zeros_like(self.output_array.v[b.global_index[0]])
+                self.output_array.v[b.global_index[0]] += b.matvec(ui, wi)
             else:
-                wh = b.matvec(uh, wh)
+                wh = b.matvec(ui, wh)
                 self.output_array += wh
             wh.fill(0)
         out = self.sol(self.output_array, self.output_array)
-- 
2.43.0


From a26893c64a45301e89417a4f8b92ce5e0227d959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 20/71] fix: block solver with distributed axes: constraints on
 the owner of wavenumber zero of the space, diagonal systems with only
 periodic axes

---
 shenfun/la.py         | 33 ++++++++++++++++++++++++---------
 shenfun/matrixbase.py |  9 ++++++++-
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index ad462bf..1b69ef2 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -1447,8 +1447,17 @@ class BlockMatrixSolver:
             self.bc_mat = BlockMatrix(bc_mats)
 
     @staticmethod
-    def apply_constraint(A, b, offset, i, constraint):
-        if constraint is None or comm.Get_rank() > 0:
+    def is_rank_zero(space):
+        """Return True if this processor owns wavenumber zero of all the
+        diagonal axes"""
+        if space.dimensions == 1:
+            return True
+        base = space.flatten()[0] if space.is_composite_space else space
+        z0 = base.local_slice()
+        return all(z0[i].start == 0 for i in base.get_diagonal_axes())
+
+    def apply_constraint(self, A, b, offset, i, constraint):
+        if constraint is None or not self.is_rank_zero(self.mat.testbase):
             return A, b
 
         if isinstance(i, int):
@@ -1500,17 +1509,23 @@ class BlockMatrixSolver:
         if len(daxes) == space.dimensions:
             # Only Fourier spaces, all diagonal
             assert len(daxes) == space.dimensions
-            Ai = self.mat._Ai[0]
             gi = b.flatten()
-            if isinstance(self._lu, dict):
+            size = len(gi)//nvars # local size of one component
+            lu = self._lu.get(0)
+            if lu is None:
+                Ai = self.mat._Ai[0]
                 for con in constraints:
-                    Ai, gi = self.apply_constraint(Ai, gi, int(np.sum(np.array(space.dims()[:con[0]]))), 0, con)
+                    Ai, gi = self.apply_constraint(Ai, gi, con[0]*size, 0, con)
+                lu = sp.linalg.splu(Ai, permc_spec=config['matrix']['block']['permc_spec'])
+                self._lu[0] = lu
             else:
                 for con in constraints:
-                    _, gi = self.apply_constraint(None, gi, int(np.sum(np.array(space.dims()[:con[0]]))), 0, con)
-            lu = sp.linalg.splu(Ai, permc_spec=config['matrix']['block']['permc_spec'])
-            self._lu = lu
-            u[:] = lu.solve(gi).reshape(u.shape)
+                    _, gi = self.apply_constraint(None, gi, con[0]*size, 0, con)
+            if b.dtype.char in 'fdg' or lu.U.dtype.char in 'FDG':
+                u[:] = lu.solve(gi).reshape(u.shape)
+            else:
+                u.real[:] = lu.solve(gi.real).reshape(u.shape)
+                u.imag[:] = lu.solve(gi.imag).reshape(u.shape)
 
         else:
             sl, dims = space._get_ndiag_slices_and_dims()
diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 80fc517..d0b2a25 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1197,7 +1197,14 @@ class BlockMatrix:
                     bm[-1].append(None)
                 else:
                     m = mij[0]
-                    if isinstance(self.testbase, MixedFunctionSpace) or len(m.naxes) == len(m.mats) or len(m.naxes) == 0:
+                    if not isinstance(self.testbase, MixedFunctionSpace) and len(m.naxes) == 0:
+                        # Only diagonal axes, that may be distributed. Use the local diagonal
+                        d = 0
+                        for mj in mij:
+                            d = d + np.broadcast_to(mj.get_simplified().scale, mj.space.shape(True)).ravel()
+                        d = sp_diags([d], [0], format=format)
+
+                    elif isinstance(self.testbase, MixedFunctionSpace) or len(m.naxes) == len(m.mats):
                         d = m.diags(format)
                         for mj in mij[1:]:
                             d = d + mj.diags(format)
-- 
2.43.0


From 1c28261128edc8825a332581dce81bbf5bd7397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 21/71] fix: boundary dofs of the solution of a block system
 solved into a used function

---
 shenfun/forms/arguments.py | 2 +-
 shenfun/la.py              | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index 8919a5a..f10b4c8 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -1531,7 +1531,7 @@ class Function(ShenfunBaseArray, BasisFunction):
             for i, s in enumerate(space.flatten()):
                 bases = s.bases if hasattr(s, 'bases') else [s]
                 for base in bases:
-                    if base.has_nonhomogeneous_bcs:
+                    if base.bc:
                         base.bc.set_boundary_dofs(self.v[i], True)
 
         else:
diff --git a/shenfun/la.py b/shenfun/la.py
index 1b69ef2..8cff33a 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -1553,4 +1553,6 @@ class BlockMatrixSolver:
 
         u = u.reshape(u.shape[1:]) if nvars == 1 else u
         b = b.reshape(b.shape[1:]) if nvars == 1 else b
+        if hasattr(u, 'set_boundary_dofs'):
+            u.set_boundary_dofs()
         return u
-- 
2.43.0


From 7b17ac388e4cd0075b8700cd265f013e696cde69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 22/71] fix: constraints of solvers with one non-periodic axis
 are applied by the process that owns wavenumber zero in all periodic axes

---
 shenfun/chebyshev/la.py |  3 +--
 shenfun/la.py           | 16 +++++++++-------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/shenfun/chebyshev/la.py b/shenfun/chebyshev/la.py
index 1b18caf..cdc7e72 100644
--- a/shenfun/chebyshev/la.py
+++ b/shenfun/chebyshev/la.py
@@ -309,8 +309,7 @@ class Helmholtz:
         if constraints != ():
             z0 = self.T.local_slice()
             paxes = np.setxor1d(range(u.ndim), self.axis)
-            is_rank_zero = np.array([z0[i].start for i in paxes]).prod()
-            if is_rank_zero == 0:
+            if all(z0[i].start == 0 for i in paxes):
                 assert len(constraints) == 1
                 s = [0]*u.ndim
                 u[tuple(s)] = constraints[0][1]
diff --git a/shenfun/la.py b/shenfun/la.py
index 8cff33a..3d505a0 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -1268,20 +1268,22 @@ class SolverGeneric1ND:
         #constant basis function exp(0).
         if constraints == ():
             return b
+        if not self.is_rank_zero():
+            return b
         ndim = self.mats[0].dimensions
-        space = self.mats[0].space
-        z0 = space.local_slice()
-        paxes = np.setxor1d(range(ndim), self.naxes)
         s = [0]*ndim
         s[self.naxes] = slice(None)
         s = tuple(s)
-        is_rank_zero = np.array([z0[i].start for i in paxes]).prod()
         sol = self.solvers1D[0] if ndim == 2 else self.solvers1D[0][0]
-        if is_rank_zero != 0:
-            return b
         sol.apply_constraints(b[s], constraints)
         return b
 
+    def is_rank_zero(self):
+        """Return True if this processor owns wavenumber zero of all the
+        diagonal axes"""
+        z0 = self.mats[0].space.local_slice()
+        return all(z0[i].start == 0 for i in range(len(z0)) if i != self.naxes)
+
     def perform_lu(self):
         if self._lu is True:
             return
@@ -1351,7 +1353,7 @@ class SolverGeneric1ND:
         # All other wavenumbers we assume have the same solver
         sol0 = solvers1D[0] if u.ndim == 2 else solvers1D[0][0]
         sol1 = solvers1D[-1] if u.ndim == 2 else solvers1D[-1][-1]
-        is_rank_zero = comm.Get_rank() == 0
+        is_rank_zero = self.is_rank_zero()
 
         if is_rank_zero:
             s = [0]*u.ndim
-- 
2.43.0


From 53c7200543f835f883ebb329c66ef0c0e070f433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 23/71] fix: constraints of solvers with two non-periodic axes
 only for wavenumber zero

---
 shenfun/la.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shenfun/la.py b/shenfun/la.py
index 3d505a0..3e84866 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -923,6 +923,11 @@ class SolverGeneric2ND:
 
     def apply_constraints(self, b, constraints):
         if len(constraints) > 0:
+            # Only the processor that owns wavenumber zero is constrained
+            naxes = self.T.get_nondiagonal_axes()
+            z0 = self.T.local_slice()
+            if any(z0[i].start > 0 for i in range(len(z0)) if i not in naxes):
+                return b
             if self._lu is None:
                 A = self.mats2D[0]
                 A = A.tolil()
-- 
2.43.0


From d808fca0d14b8146df21162a1f743dcfa663f9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 24/71] fix: complex scale of real matrices in SolverGeneric2ND

---
 shenfun/la.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 3e84866..c0d022c 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -910,13 +910,13 @@ class SolverGeneric2ND:
             A0 = m.mats[naxes[0]].diags('csc')
             A1 = m.mats[naxes[1]].diags('csc')
             M0 = kron(A0, A1, 'csc')
-            M0 *= m.scale[tuple(sc)]
+            M0 = M0*m.scale[tuple(sc)]
             for m in self.tpmats[1:]:
                 A0 = m.mats[naxes[0]].diags('csc')
                 A1 = m.mats[naxes[1]].diags('csc')
                 M1 = kron(A0, A1, 'csc')
                 sc[diagonal_axis] = i if m.scale.shape[diagonal_axis] > 1 else 0
-                M1 *= m.scale[tuple(sc)]
+                M1 = M1*m.scale[tuple(sc)]
                 M0 = M0 + M1
         self.mats2D[i] = M0
         return M0
-- 
2.43.0


From 6d91ce204f2fc9e6e077d11c7268891d5c249823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 25/71] fix: backward substitution of ThreeDMA uses its third
 diagonal

---
 shenfun/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index c0d022c..54f1eee 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -690,7 +690,7 @@ class ThreeDMA(BandedMatrixSolver):
     def inner_solve(u, data):
         d = data[0, :]
         u1 = data[1, 2:]
-        u2 = data[1, 4:]
+        u2 = data[2, 4:]
         n = d.shape[0]
         u[n-1] = u[n-1]/d[n-1]
         u[n-2] = u[n-2]/d[n-2]
-- 
2.43.0


From e71f4ace246076553da5683ae51934f4b9c98ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 26/71] fix: constraints of PDMA and HeptaDMA before the LU
 decomposition

---
 shenfun/la.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 54f1eee..cea9815 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -474,7 +474,6 @@ class PDMA(BandedMatrixSolver):
                 b[tuple(s)] = constraints[0][1]
             else:
                 b[0] = constraints[0][1]
-            self._inner_arg = self._lu.data
         return b
 
     @staticmethod
@@ -737,7 +736,6 @@ class HeptaDMA(BandedMatrixSolver):
                 b[tuple(s)] = constraints[0][1]
             else:
                 b[0] = constraints[0][1]
-            self._inner_arg = self._lu.data
         return b
 
     @staticmethod
-- 
2.43.0


From d7ff6d307d2f96ebeff8c0db0e103acde8d674a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 27/71] fix: constrained row of a sparse matrix solver with
 entry in column zero

---
 shenfun/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index cea9815..2f5bd24 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -119,7 +119,7 @@ class SparseMatrixSolver:
                             elif key < 0:
                                 M = A.shape[0]+key
                                 v = np.broadcast_to(np.atleast_1d(vals), M).copy()
-                                if row+key < M and row+key > 0:
+                                if row+key < M and row+key >= 0:
                                     v[row+key] = 0
                             A[key] = v
                     if b.ndim > 1:
-- 
2.43.0


From 1eb7d28f87c3b22f59d4b89714285bc96efe0152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 28/71] fix: function-valued boundary conditions on more than
 one process

---
 shenfun/tensorproductspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index f9fd71b..8462459 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -2157,7 +2157,8 @@ class BoundaryValues:
             if isinstance(bc, Number):
                 if not bc == 0:
                     return True
-            elif isinstance(bc, Project):
+            elif isinstance(bc, (Project, Function)):
+                # A Function is distributed, and zero locally does not mean zero
                 return True
             elif isinstance(bc, np.ndarray):
                 if not np.all(bc == 0):
-- 
2.43.0


From ecfd215fb6098add806d189bbd1f1037a7bb0248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 29/71] fix: linear forms in one dimension after the change for
 composite test functions

---
 shenfun/forms/inner.py   | 4 ++--
 shenfun/forms/project.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/shenfun/forms/inner.py b/shenfun/forms/inner.py
index 4e1c01c..774ec2b 100644
--- a/shenfun/forms/inner.py
+++ b/shenfun/forms/inner.py
@@ -499,7 +499,7 @@ def inner(expr0, expr1, output_array=None, assemble=None, kind=None, fixed_resol
     wh = np.zeros_like(output_array)
     for b in A:
         ui = uh.v[b.global_index[1]] if uh.function_space().is_composite_space else uh
-        if wh.ndim > b.dimensions: # one component of composite test function
+        if wh.ndim > getattr(b, 'dimensions', 1): # one component of composite test function
             wh.v[b.global_index[0]] = b.matvec(ui, wh.v[b.global_index[0]])
         else:
             wh = b.matvec(ui, wh)
@@ -554,7 +554,7 @@ class Inner:
                     self.output_array += wh
                 else:
                     ui = uh.v[b.global_index[1]] if uh.function_space().is_composite_space else uh
-                    if wh.ndim > b.dimensions: # one component of composite test function
+                    if wh.ndim > getattr(b, 'dimensions', 1): # one component of composite test function
                         wi = np.zeros_like(self.output_array.v[b.global_index[0]])
                         self.output_array.v[b.global_index[0]] += b.matvec(ui, wi)
                     else:
diff --git a/shenfun/forms/project.py b/shenfun/forms/project.py
index e4b44be..a64886c 100644
--- a/shenfun/forms/project.py
+++ b/shenfun/forms/project.py
@@ -264,7 +264,7 @@ class Project:
         self.output_array.fill(0)
         for b in self.A:
             ui = uh.v[b.global_index[1]] if uh.function_space().is_composite_space else uh
-            if wh.ndim > b.dimensions: # one component of composite test function
+            if wh.ndim > getattr(b, 'dimensions', 1): # one component of composite test function
                 wi = np.zeros_like(self.output_array.v[b.global_index[0]])
                 self.output_array.v[b.global_index[0]] += b.matvec(ui, wi)
             else:
-- 
2.43.0


From f9ed4544100e3ac1d4409758065a37dcb76a52a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 30/71] fix: Function.to_ortho with no or several nonperiodic
 axes, also when these are distributed

---
 shenfun/forms/arguments.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index f10b4c8..3adb6db 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -1671,21 +1671,26 @@ class Function(ShenfunBaseArray, BasisFunction):
             return output_array
 
         if space.dimensions > 1:
-            naxes = space.get_nonperiodic_axes()
-            axis = naxes[0]
-            base = space.bases[axis]
-            if not base.is_orthogonal:
-                output_array = base.to_ortho(self, output_array)
-            else:
-                output_array[:] = self
-
-            if len(naxes) > 1:
-                input_array = np.zeros_like(output_array.v)
-                for axis in naxes[1:]:
-                    base = space.bases[axis]
-                    input_array[:] = output_array
-                    if not base.is_orthogonal:
-                        output_array = base.to_ortho(input_array, output_array)
+            # Each axis must be aligned when moved to the orthogonal basis
+            c0 = self
+            alignments = []
+            for axis in space.get_nonperiodic_axes():
+                base = space.bases[axis]
+                if base.is_orthogonal:
+                    continue
+                if c0.pencil.subcomm[axis].Get_size() > 1:
+                    alignments.append(c0.alignment)
+                    c0 = c0.redistribute(axis)
+                c1 = DistArray(self.global_shape,
+                               subcomm=c0.pencil.subcomm,
+                               dtype=self.dtype,
+                               alignment=c0.alignment)
+                c0 = base.to_ortho(c0, c1)
+
+            # Reverse transfer to get the same distribution as self
+            for axis in reversed(alignments):
+                c0 = c0.redistribute(axis)
+            output_array[:] = c0
         else:
             output_array = space.to_ortho(self, output_array)
         return output_array
-- 
2.43.0


From 421ef2100b1c0fbbe7d15e7dd96d7bf410ccb02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 31/71] fix: refine and assign Functions to coarser, or odd,
 resolutions and tensors

---
 shenfun/forms/arguments.py | 72 ++++++++++----------------------------
 shenfun/spectralbase.py    | 23 ++++++++++++
 2 files changed, 41 insertions(+), 54 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index 3adb6db..48751fa 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -1711,12 +1711,8 @@ class Function(ShenfunBaseArray, BasisFunction):
         from shenfun import VectorSpace
         if self.ndim == 1:
             assert u_hat.__class__ == self.__class__
-            if self.shape[0] < u_hat.shape[0]:
-                self.function_space()._padding_backward(self, u_hat)
-            elif self.shape[0] == u_hat.shape[0]:
-                u_hat[:] = self
-            elif self.shape[0] > u_hat.shape[0]:
-                self.function_space()._truncation_forward(self, u_hat)
+            space = self.function_space()
+            space._assign_to(u_hat.function_space(), self, u_hat)
             return u_hat
 
         space = self.function_space()
@@ -1756,7 +1752,6 @@ class Function(ShenfunBaseArray, BasisFunction):
         returned array is padded with zeros.
 
         """
-        from shenfun.fourier.bases import R2C
         from shenfun import VectorSpace
 
         if self.ndim == 1:
@@ -1768,71 +1763,40 @@ class Function(ShenfunBaseArray, BasisFunction):
             output_array = self.assign(output_array)
             return output_array
 
+        space = self.function_space()
         if isinstance(N, Number):
-            N = (N,)*len(self)
+            N = (N,)*space.dimensions
         elif isinstance(N, (tuple, list, np.ndarray)):
-            assert len(N) == len(self.function_space())
+            assert len(N) == space.dimensions
 
-        space = self.function_space()
+        if output_array is None:
+            output_array = Function(space.get_refined(N))
 
         if isinstance(space, VectorSpace):
-            if output_array is None:
-                output_array = [None]*len(self)
             for i, array in enumerate(self):
-                output_array[i] = array.refine(N, output_array=output_array[i])
-            if isinstance(output_array, list):
-                T = output_array[0].function_space()
-                VT = VectorSpace(T)
-                output_array = np.array(output_array)
-                output_array = Function(VT, buffer=output_array)
+                array.refine(N, output_array=output_array[i])
             return output_array
 
         axes = [bx for ax in space.axes for bx in ax]
-        base = space.bases[axes[0]]
+        newspace = output_array.function_space()
         global_shape = list(self.global_shape) # Global shape in spectral space
-        factor = N[axes[0]]/self.function_space().bases[axes[0]].N
-        if isinstance(base, R2C):
-            global_shape[axes[0]] = int((2*global_shape[axes[0]]-2)*factor)//2+1
-        else:
-            global_shape[axes[0]] = int(global_shape[axes[0]]*factor)
-        c1 = DistArray(global_shape,
-                       subcomm=self.pencil.subcomm,
-                       dtype=self.dtype,
-                       alignment=self.alignment)
-        if self.global_shape[axes[0]] <= global_shape[axes[0]]:
-            base._padding_backward(self, c1)
-        else:
-            base._truncation_forward(self, c1)
-        for ax in axes[1:]:
-            c0 = c1.redistribute(ax)
-            factor = N[ax]/self.function_space().bases[ax].N
-
-            # Get a new padded array
-            base = space.bases[ax]
-            if isinstance(base, R2C):
-                global_shape[ax] = int(base.N*factor)//2+1
-            else:
-                global_shape[ax] = int(global_shape[ax]*factor)
+        c0 = self
+        for i, ax in enumerate(axes):
+            if i > 0:
+                c0 = c1.redistribute(ax)
+            # Get a new array that is padded or truncated along axis ax
+            global_shape[ax] = newspace.bases[ax].shape(True)
             c1 = DistArray(global_shape,
                            subcomm=c0.pencil.subcomm,
-                           dtype=c0.dtype,
+                           dtype=self.dtype,
                            alignment=ax)
-
-            # Copy from c0 to d0
-            if self.global_shape[ax] <= global_shape[ax]:
-                base._padding_backward(c0, c1)
-            else:
-                base._truncation_forward(c0, c1)
+            space.bases[ax]._assign_to(newspace.bases[ax], c0, c1)
 
         # Reverse transfer to get the same distribution as u_hat
         for ax in reversed(axes[:-1]):
             c1 = c1.redistribute(ax)
 
-        if output_array is None:
-            refined_space = space.get_refined(N)
-            output_array = Function(refined_space, buffer=c1)
-        else:
-            output_array[:] = c1
+        output_array[:] = c1
         return output_array
 
     def copy_to_flattened(self, f=None, j=(), dims=None, sl=None):
diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index c83fd36..935b960 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -1390,6 +1390,29 @@ class SpectralBase:
             padded_array[sp] = trunc_array[sl]
 
 
+    def _assign_to(self, newbase, u, v):
+        """Assign the coefficients ``u`` in self to the coefficients ``v`` in
+        ``newbase``, that is otherwise as self, but may differ in resolution
+
+        Parameters
+        ----------
+        newbase : :class:`.SpectralBase`
+        u : array
+            Expansion coefficients in self
+        v : array
+            Expansion coefficients in ``newbase``
+        """
+        if newbase.N == self.N:
+            v[:] = u
+        elif newbase.N > self.N:
+            self._padding_backward(u, v)
+        else:
+            newbase._truncation_forward(u, v)
+            if self.bc:
+                s0, s1 = self.get_bc_space().slice(), newbase.get_bc_space().slice()
+                v[newbase.sl[s1]] = u[self.sl[s0]]
+
+
 def getCompositeBase(Orthogonal):
     """Dynamic class factory for Composite base class
 
-- 
2.43.0


From f80d3ff68686345d45c93e85796a53a39cb773f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 32/71] fix: adaptive resolution must not depend on random
 numbers of each process

---
 shenfun/spectralbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index 935b960..85413e6 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -1319,7 +1319,7 @@ class SpectralBase:
         T = self.get_refined(5)
         converged = False
         count = 0
-        points = np.random.random(8)
+        points = np.random.RandomState(8).random_sample(8) # same for all processes
         points = float(T.domain.lower) + points*float(T.domain.upper-T.domain.lower)
         sym = fun.free_symbols
         assert len(sym) == 1
-- 
2.43.0


From 80c1240d2e0b8b0affd5e3b156802659e965a329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 33/71] fix: get_adaptive keeps the data type of the space

---
 shenfun/tensorproductspace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 8462459..5d9a629 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -1290,6 +1290,7 @@ class TensorProductSpace(PFFT):
             else:
                 Tj.append(base)
         return TensorProductSpace(self.subcomm, Tj, axes=self.axes,
+                                  dtype=self.dtype(),
                                   coordinates=self.coors.coordinates)
 
     @property
-- 
2.43.0


From 1aa56224751c850759a825c540977336c82860ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 34/71] fix: spaces derived from a padded space use the
 distribution of its physical space

---
 shenfun/tensorproductspace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 5d9a629..193d524 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -526,6 +526,8 @@ class TensorProductSpace(PFFT):
                 pencilA = Pencil(pencilB.subcomm, shape, axes[-1])
 
         self.pencil[1] = pencilA
+        # Spaces derived from self are configured from the physical space
+        self.subcomm = pencilA.subcomm
 
         self.backward = BackwardTransform(
             [o.backward for o in self.xfftn],
-- 
2.43.0


From 040f517df72dd84939939f2e4e1c746ec2c31f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 35/71] fix: get_homogeneous and get_unplanned use the
 communicators, axes and data type of the space

---
 shenfun/tensorproductspace.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 193d524..2a43eb1 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -615,7 +615,9 @@ class TensorProductSpace(PFFT):
         """
         bases = tuple([base.get_unplanned(**kwargs) for base in self.bases])
         if tensorproductspace:
-            return TensorProductSpace(comm, bases)
+            return TensorProductSpace(self.subcomm, bases, axes=self.axes,
+                                      dtype=self.dtype(),
+                                      coordinates=self.coors.coordinates)
         return bases
 
     def get_homogeneous(self, **kwargs):
@@ -629,7 +631,9 @@ class TensorProductSpace(PFFT):
 
         """
         bases = tuple([base.get_homogeneous(**kwargs) for base in self.bases])
-        return TensorProductSpace(comm, bases)
+        return TensorProductSpace(self.subcomm, bases, axes=self.axes,
+                                  dtype=self.dtype(),
+                                  coordinates=self.coors.coordinates)
 
     def dtype(self, forward_output=False):
         if hasattr(self, 'forward'):
-- 
2.43.0


From c867d16faca1a0afc221fea3c9419e9f4c051435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 36/71] fix: a checkpoint replaces the previous one only when
 it is complete

---
 shenfun/io/__init__.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/shenfun/io/__init__.py b/shenfun/io/__init__.py
index 3956dbb..dfb6892 100644
--- a/shenfun/io/__init__.py
+++ b/shenfun/io/__init__.py
@@ -64,31 +64,30 @@ class Checkpoint:
         self.data = data
         self.checkevery = checkevery
 
-    def open(self, mode='r+'):
+    def open(self, mode='r+', suffix='.chk.h5'):
         import h5py
-        self.f = h5py.File(self.filename+'.chk.h5', mode, driver="mpio", comm=comm)
+        self.f = h5py.File(self.filename+suffix, mode, driver="mpio", comm=comm)
 
     def close(self):
         if self.f:
             self.f.close()
 
     def update(self, t, tstep):
-        if self.f is None:
-            self.open(mode='w')
-            self.f.attrs.create('tstep', 0)
-            self.f.attrs.create('t', 0.0)
-            self.close()
-
         kill = self.check_if_kill()
         if tstep % self.checkevery == 0 or kill:
-            if comm.Get_rank() == 0: # for safety
-                os.system(f'cp {self.filename}.chk.h5 {self.filename}.old.chk.h5')
-            self.open()
+            # Write to a new file, such that the previous checkpoint is
+            # replaced only when the new one is complete
+            self.open(mode='w', suffix='.new.chk.h5')
             for key, val in self.data.items():
                 self.write(int(key), val)
             self.f.attrs['tstep'] = tstep
             self.f.attrs['t'] = t
             self.close()
+            if comm.Get_rank() == 0:
+                if os.path.exists(self.filename+'.chk.h5'): # for safety
+                    os.replace(self.filename+'.chk.h5', self.filename+'.old.chk.h5')
+                os.replace(self.filename+'.new.chk.h5', self.filename+'.chk.h5')
+            comm.Barrier()
             if kill:
                 sys.exit(1)
 
-- 
2.43.0


From a8b1f32d05e1d7d685eb86c5e135be618f332215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 37/71] fix: stopping is safe also when the stop file has been
 removed meanwhile

---
 shenfun/io/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shenfun/io/__init__.py b/shenfun/io/__init__.py
index dfb6892..60167ec 100644
--- a/shenfun/io/__init__.py
+++ b/shenfun/io/__init__.py
@@ -116,7 +116,10 @@ class Checkpoint:
         collective = comm.allreduce(found)
         if collective > 0:
             if comm.Get_rank() == 0:
-                os.remove('killshenfun')
+                try:
+                    os.remove('killshenfun')
+                except FileNotFoundError: # removed by someone else
+                    pass
                 print('killshenfun Found! Stopping simulations cleanly by checkpointing...')
             return True
         else:
-- 
2.43.0


From 476ed7659162954bf37cbd7c664df24a39f517f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 38/71] fix: linear operators of RK4, ETD and ETDRK4 in one
 dimension, with one term, or different for the components

---
 shenfun/utilities/integrators.py | 99 +++++++++++++-------------------
 1 file changed, 39 insertions(+), 60 deletions(-)

diff --git a/shenfun/utilities/integrators.py b/shenfun/utilities/integrators.py
index 4a40408..076f778 100644
--- a/shenfun/utilities/integrators.py
+++ b/shenfun/utilities/integrators.py
@@ -94,6 +94,41 @@ class IntegratorBase:
     def NonlinearRHS(self, *args, **kwargs):
         return 0
 
+    def get_diagonal_operator(self):
+        """Return the diagonal of the linear operator as an array
+
+        Note
+        ----
+        Only for Fourier function spaces, where all matrices are diagonal
+        and mass matrices are identities.
+        """
+        u = TrialFunction(self.T)
+        v = TestFunction(self.T)
+        L = self.LinearRHS(u, **self.params)
+        if isinstance(L, Expr):
+            L = inner(v, L)
+        if isinstance(L, (TPMatrix, SparseMatrix)):
+            L = [L]
+        if isinstance(L, list):
+            if isinstance(L[0], TPMatrix):
+                L = get_simplified_tpmatrices(L)
+                assert np.all([m.isidentity() for m in L])
+                if self.T.tensor_rank > 0:
+                    # One diagonal for each component
+                    assert np.all([m.global_index[0] == m.global_index[1] for m in L]), \
+                        'The components of the linear operator cannot be coupled'
+                    d = dict((m.global_index[0], m.scale) for m in L)
+                    L = [d.get(i, 0) for i in range(self.T.num_components())]
+                    L = np.array(np.broadcast_arrays(*L))
+                else:
+                    assert len(L) == 1
+                    L = L[0].scale
+            else:
+                L = sum(L[1:], L[0])
+                L.simplify_diagonal_matrices()
+                L = L.scale
+        return np.atleast_1d(L)
+
     def setup(self, dt):
         """Set up solver"""
         pass
@@ -341,25 +376,7 @@ class ETD(IntegratorBase):
     def setup(self, dt):
         """Set up ETD ODE solver"""
         self.params['dt'] = dt
-        u = TrialFunction(self.T)
-        v = TestFunction(self.T)
-        L = self.LinearRHS(u, **self.params)
-        if isinstance(L, Expr):
-            L = inner(v, L)
-            L = get_simplified_tpmatrices(L)[0]
-        if isinstance(L, list):
-            assert self.T.tensor_rank == 1
-            assert L[0].isidentity()
-            L = L[0].scale
-            # Use only L[0] and let numpy broadcasting take care of the rest
-        elif isinstance(L, TPMatrix):
-            assert L.isidentity()
-            L = L.scale
-        elif isinstance(L, SparseMatrix):
-            L.simplify_diagonal_matrices()
-            L = L.scale
-
-        L = np.atleast_1d(L)
+        L = self.get_diagonal_operator()
         hL = L*dt
         self.ehL = np.exp(hL)
         M = 50
@@ -434,28 +451,7 @@ class ETDRK4(IntegratorBase):
     def setup(self, dt):
         """Set up ETDRK4 ODE solver"""
         self.params['dt'] = dt
-        u = TrialFunction(self.T)
-        v = TestFunction(self.T)
-        L = self.LinearRHS(u, **self.params)
-        if isinstance(L, Expr):
-            L = inner(v, L)
-            if isinstance(L, list):
-                if isinstance(L[0], TPMatrix):
-                    L = get_simplified_tpmatrices(L)[0]
-                elif isinstance(L[0], SpectralMatrix):
-                    L = sum(L[1:], L[0])
-        if isinstance(L, list):
-            assert self.T.tensor_rank == 1
-            assert L[0].isidentity()
-            L = L[0].scale
-            # Use only L[0] and let numpy broadcasting take care of the rest
-        elif isinstance(L, TPMatrix):
-            assert L.isidentity()
-            L = L.scale
-        elif isinstance(L, SparseMatrix):
-            L.simplify_diagonal_matrices()
-            L = L.scale
-        L = np.atleast_1d(L)
+        L = self.get_diagonal_operator()
         hL = L*dt
         self.ehL = np.exp(hL)
         self.ehL_h = np.exp(hL/2.)
@@ -566,23 +562,7 @@ class RK4(IntegratorBase):
             self.setup(dt)
         t, end_time = trange
         tstep = 0
-        ut = TrialFunction(self.T)
-        vt = TestFunction(self.T)
-        L = self.LinearRHS(ut, **self.params)
-        if isinstance(L, Expr):
-            L = inner(vt, L)
-            L = get_simplified_tpmatrices(L)[0]
-        if isinstance(L, list):
-            assert self.T.tensor_rank == 1
-            assert L[0].isidentity()
-            L = L[0].scale
-            # Use only L[0] and let numpy broadcasting take care of the rest
-        elif isinstance(L, TPMatrix):
-            assert L.isidentity()
-            L = L.scale
-        elif isinstance(L, SparseMatrix):
-            L.simplify_diagonal_matrices()
-            L = L.scale
+        L = self.get_diagonal_operator()
 
         while t < end_time-1e-8:
             t += dt
@@ -590,8 +570,7 @@ class RK4(IntegratorBase):
             self.U_hat0[:] = self.U_hat1[:] = u_hat
             for rk in range(4):
                 dU = self.NonlinearRHS(u, u_hat, self.dU, **self.params)
-                if isinstance(L, np.ndarray):
-                    dU += L*u_hat
+                dU += L*u_hat
                 if rk < 3:
                     u_hat[:] = self.U_hat0 + self.b[rk]*dt*dU
                 self.U_hat1 += self.a[rk]*dt*dU
-- 
2.43.0


From c92729b06a22152a4116308e6bd1e6ab961645e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 39/71] fix: exponential integrators with complex linear
 operators

---
 shenfun/utilities/integrators.py | 42 +++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/shenfun/utilities/integrators.py b/shenfun/utilities/integrators.py
index 076f778..33634cb 100644
--- a/shenfun/utilities/integrators.py
+++ b/shenfun/utilities/integrators.py
@@ -52,6 +52,25 @@ __all__ = ('IRK3', 'BackwardEuler', 'RK4', 'ETDRK4', 'ETD',
 
 #pylint: disable=unused-variable
 
+def contour_mean(f, z, M=50):
+    """Return the mean of analytic function ``f`` on unit circles around ``z``
+
+    Parameters
+    ----------
+    f : function
+    z : array
+    M : int, optional
+        The number of points on half a circle
+    """
+    psi = np.zeros(z.shape, dtype=z.dtype if np.iscomplexobj(z) else float)
+    for k in range(1, M+1):
+        r = np.exp(np.pi*1j*(k-0.5)/M)
+        if np.iscomplexobj(z):
+            psi += (f(z+r)+f(z+r.conjugate()))/2
+        else:
+            psi += f(z+r).real
+    return psi/M
+
 class IntegratorBase:
     """Abstract base class for integrators
 
@@ -379,12 +398,7 @@ class ETD(IntegratorBase):
         L = self.get_diagonal_operator()
         hL = L*dt
         self.ehL = np.exp(hL)
-        M = 50
-        psi = self.psi = np.zeros(hL.shape, dtype=float)
-        for k in range(1, M+1):
-            ll = hL+np.exp(np.pi*1j*(k-0.5)/M)
-            psi += ((np.exp(ll)-1.)/ll).real
-        psi /= M
+        self.psi = contour_mean(lambda ll: (np.exp(ll)-1.)/ll, hL)
 
     def solve(self, u, u_hat, dt, trange):
         """Integrate forward in time
@@ -455,17 +469,11 @@ class ETDRK4(IntegratorBase):
         hL = L*dt
         self.ehL = np.exp(hL)
         self.ehL_h = np.exp(hL/2.)
-        M = 50
-        psi = self.psi = np.zeros((4,) + hL.shape, dtype=float)
-        for k in range(1, M+1):
-            ll = hL+np.exp(np.pi*1j*(k-0.5)/M)
-            psi[0] += ((np.exp(ll)-1.)/ll).real
-            psi[1] += ((np.exp(ll)-ll-1.)/ll**2).real
-            psi[2] += ((np.exp(ll)-0.5*ll**2-ll-1.)/ll**3).real
-            ll2 = hL/2.+np.exp(np.pi*1j*(k-0.5)/M)
-            psi[3] += ((np.exp(ll2)-1.)/(ll2)).real
-
-        psi /= M
+        psi = self.psi = [
+            contour_mean(lambda ll: (np.exp(ll)-1.)/ll, hL),
+            contour_mean(lambda ll: (np.exp(ll)-ll-1.)/ll**2, hL),
+            contour_mean(lambda ll: (np.exp(ll)-0.5*ll**2-ll-1.)/ll**3, hL),
+            contour_mean(lambda ll: (np.exp(ll)-1.)/ll, hL/2.)]
         a = [psi[0]-3*psi[1]+4*psi[2]]
         a.append(2*psi[1]-4*psi[2])
         a.append(2*psi[1]-4*psi[2])
-- 
2.43.0


From 105a2a81e405ac8a5cae0896222a0dd7b5106e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 40/71] fix: BackwardEuler with Nyquist masks

---
 shenfun/utilities/integrators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/utilities/integrators.py b/shenfun/utilities/integrators.py
index 33634cb..19b0912 100644
--- a/shenfun/utilities/integrators.py
+++ b/shenfun/utilities/integrators.py
@@ -338,7 +338,7 @@ class BackwardEuler(IntegratorBase):
     def compute_rhs(self, u, u_hat, dU, dU1):
         dt = self.params['dt']
         dU = self.NonlinearRHS(u, u_hat, dU, **self.params)
-        if self.mask:
+        if self.mask is not None:
             dU.mask_nyquist(self.mask)
         w1 = dU*2*dt - dU1*dt
         dU1[:] = dU
@@ -355,7 +355,7 @@ class BackwardEuler(IntegratorBase):
             dU = self.compute_rhs(u, u_hat, self.dU, self.dU1)
             dU += self.rhs_mats.matvec(u_hat, self.w0)
             u_hat = self.solver(dU, u=u_hat)
-            if self.mask:
+            if self.mask is not None:
                 u_hat.mask_nyquist(self.mask)
             t += dt
             tstep += 1
-- 
2.43.0


From cecac0433377a1cf55a105724373c1a60195c5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 41/71] fix: the first step of BackwardEuler applied the
 nonlinear term twice

---
 shenfun/utilities/integrators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shenfun/utilities/integrators.py b/shenfun/utilities/integrators.py
index 19b0912..656a97d 100644
--- a/shenfun/utilities/integrators.py
+++ b/shenfun/utilities/integrators.py
@@ -302,6 +302,7 @@ class BackwardEuler(IntegratorBase):
         IntegratorBase.__init__(self, T, L=L, N=N, update=update, **params)
         self.dU = Function(T)
         self.dU1 = Function(T)
+        self.first_step = True
         self.solver = None
         self.rhs_mats = None
         self.w0 = Function(self.T)
@@ -340,6 +341,9 @@ class BackwardEuler(IntegratorBase):
         dU = self.NonlinearRHS(u, u_hat, dU, **self.params)
         if self.mask is not None:
             dU.mask_nyquist(self.mask)
+        if self.first_step: # There is no previous step to extrapolate from
+            dU1[:] = dU
+            self.first_step = False
         w1 = dU*2*dt - dU1*dt
         dU1[:] = dU
         return w1
-- 
2.43.0


From 81cf21e700b935b597bd19e7115e4c1c026de7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 42/71] fix: times of the stages of IMEXRK011

---
 shenfun/utilities/integrators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/utilities/integrators.py b/shenfun/utilities/integrators.py
index 656a97d..5ddce72 100644
--- a/shenfun/utilities/integrators.py
+++ b/shenfun/utilities/integrators.py
@@ -820,7 +820,7 @@ class IMEXRK011(PDEIMEXRK):
         b = np.array([
             [0, 0],
             [1, 0]])
-        c = (1, 0)
+        c = (0, 1)
         return a, b, c
 
 
-- 
2.43.0


From 2d516fbf0f05a21aaa9885200544566051a2a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 43/71] fix: default solver of IMEXRK3

---
 shenfun/utilities/integrators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/utilities/integrators.py b/shenfun/utilities/integrators.py
index 5ddce72..d0f9a4d 100644
--- a/shenfun/utilities/integrators.py
+++ b/shenfun/utilities/integrators.py
@@ -631,9 +631,9 @@ class IMEXRK3:
         if solver is None:
             if v.dimensions == 1:
                 self._solver = la.Solver
-            elif len(T.get_nondiagonal_axes().ndim) == 1:
+            elif len(T.get_nondiagonal_axes()) == 1:
                 self._solver = la.SolverGeneric1ND
-            elif len(T.get_nondiagonal_axes().ndim) == 2:
+            elif len(T.get_nondiagonal_axes()) == 2:
                self._solver = la.SolverGeneric2ND
             else:
                 raise NotImplementedError
-- 
2.43.0


From 27e9c40c04d4819f0458eba29e345288e90ab18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:01 +0000
Subject: [PATCH 44/71] fix: IMEXRK011, where there is one matrix only

---
 shenfun/utilities/integrators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shenfun/utilities/integrators.py b/shenfun/utilities/integrators.py
index d0f9a4d..b5b8015 100644
--- a/shenfun/utilities/integrators.py
+++ b/shenfun/utilities/integrators.py
@@ -776,6 +776,7 @@ class PDEIMEXRK:
         ul = copy.copy(self.u)
         ul._basis = TrialFunction(self.u.function_space())
         mats = inner(self.v, ul - dt*a[1, 1]*self.L(ul))
+        mats = mats if isinstance(mats, list) else [mats]
         self.solvers.append(self._solver(mats))
         self.linear_rhs = Inner(self.v, self.L(self.u))
         self.u0_rhs = Inner(self.v, self.u)
-- 
2.43.0


From ed8e954dd84f4f71968d5d0aa851414d34ba00ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:30 +0000
Subject: [PATCH 45/71] fix: BackwardEuler and IRK3 without a nonlinear term

---
 shenfun/utilities/integrators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/utilities/integrators.py b/shenfun/utilities/integrators.py
index b5b8015..a36cc87 100644
--- a/shenfun/utilities/integrators.py
+++ b/shenfun/utilities/integrators.py
@@ -250,7 +250,7 @@ class IRK3(IntegratorBase):
         b = self.b[rk]
         dt = self.params['dt']
         dU = self.NonlinearRHS(u, u_hat, dU, **self.params)
-        if self.mask is not None:
+        if self.mask is not None and isinstance(dU, np.ndarray):
             dU.mask_nyquist(self.mask)
         w1 = dU*a*dt + dU1*b*dt
         dU1[:] = dU
@@ -339,7 +339,7 @@ class BackwardEuler(IntegratorBase):
     def compute_rhs(self, u, u_hat, dU, dU1):
         dt = self.params['dt']
         dU = self.NonlinearRHS(u, u_hat, dU, **self.params)
-        if self.mask is not None:
+        if self.mask is not None and isinstance(dU, np.ndarray):
             dU.mask_nyquist(self.mask)
         if self.first_step: # There is no previous step to extrapolate from
             dU1[:] = dU
-- 
2.43.0


From ab9d5d1f7984f818c998ca4cc23629afb4c9d40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 46/71] fix: destroying a derived space freed the communicators
 of the space it was derived from

---
 shenfun/tensorproductspace.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 2a43eb1..906f9ad 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -329,6 +329,7 @@ class TensorProductSpace(PFFT):
         self.hi = self.coors.hi
         self.sg = self.coors.sg
         self._padded_space = {}   # Storage for padded space that is otherwise as self
+        self._owns_subcomm = False   # True if self.subcomm is created by self
         shape = list(self.global_shape())
         self.axes = axes
         assert shape
@@ -399,6 +400,7 @@ class TensorProductSpace(PFFT):
                     for ax in axes[-1]:
                         dims[ax] = 1
                 self.subcomm = Subcomm(comm, dims)
+                self._owns_subcomm = True
 
             # At this points axes is a tuple of tuples of length one.
             # Try to collapse some Fourier transforms into one.
@@ -1354,10 +1356,17 @@ class TensorProductSpace(PFFT):
         ----------
         destroy_subcomm : bool, optional
             Whether to also destroy self.subcomm
+
+        Note
+        ----
+        The communicators in self.subcomm are only destroyed if they were
+        created by self. A space derived from another (e.g., using
+        :meth:`.get_refined` or :meth:`.get_orthogonal`) shares the
+        communicators with the space it is derived from, and the latter may
+        still be in use.
         """
-        if destroy_subcomm:
-            if isinstance(self.subcomm, Subcomm):
-                self.subcomm.destroy()
+        if destroy_subcomm and self._owns_subcomm:
+            self.subcomm.destroy()
         for trans in self.transfer:
             trans.destroy()
 
-- 
2.43.0


From 426bb42dec6f173aa87855c30533374fdebcc688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:17 +0000
Subject: [PATCH 47/71] fix: a padded space that has been destroyed was
 returned again by get_dealiased

---
 shenfun/tensorproductspace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 906f9ad..83d0a88 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -330,6 +330,7 @@ class TensorProductSpace(PFFT):
         self.sg = self.coors.sg
         self._padded_space = {}   # Storage for padded space that is otherwise as self
         self._owns_subcomm = False   # True if self.subcomm is created by self
+        self._destroyed = False
         shape = list(self.global_shape())
         self.axes = axes
         assert shape
@@ -564,7 +565,8 @@ class TensorProductSpace(PFFT):
             assert len(padding_factor) == len(self)
         
         if padding_factor in self._padded_space:
-            return self._padded_space[padding_factor]
+            if not self._padded_space[padding_factor]._destroyed:
+                return self._padded_space[padding_factor]
         
         padded_bases = [base.get_dealiased(padding_factor=padding_factor[axis],
                                            dealias_direct=dealias_direct)
@@ -1369,6 +1371,7 @@ class TensorProductSpace(PFFT):
             self.subcomm.destroy()
         for trans in self.transfer:
             trans.destroy()
+        self._destroyed = True
 
     def _get_ndiag_cum_dofs(self):
         """Return the cumulative sum of degrees of freedom along nondiagonal axes"""
-- 
2.43.0


From 201a589225f2061ec556e62d1a3a9bc8bbc5485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:37 +0000
Subject: [PATCH 48/71] fix: get_dealiased returned a space with other
 dealiasing than asked for

---
 shenfun/tensorproductspace.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 83d0a88..5e3f0c2 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -564,9 +564,10 @@ class TensorProductSpace(PFFT):
         elif isinstance(padding_factor, (tuple, list, np.ndarray)):
             assert len(padding_factor) == len(self)
         
-        if padding_factor in self._padded_space:
-            if not self._padded_space[padding_factor]._destroyed:
-                return self._padded_space[padding_factor]
+        key = (tuple(padding_factor), bool(dealias_direct))
+        if key in self._padded_space:
+            if not self._padded_space[key]._destroyed:
+                return self._padded_space[key]
         
         padded_bases = [base.get_dealiased(padding_factor=padding_factor[axis],
                                            dealias_direct=dealias_direct)
@@ -580,7 +581,7 @@ class TensorProductSpace(PFFT):
                                          dtype=self.forward.output_array.dtype,
                                          backward_from_pencil=self.forward.output_pencil,
                                          coordinates=self.coors.coordinates)
-        self._padded_space[padding_factor] = paddedspace
+        self._padded_space[key] = paddedspace
         return paddedspace
 
     def get_refined(self, N):
-- 
2.43.0


From 0417cdf78e8358579b20015cfecdc7950a85d072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:18 +0000
Subject: [PATCH 49/71] fix: symmetric outer product in three dimensions
 without compiled code

---
 shenfun/utilities/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shenfun/utilities/__init__.py b/shenfun/utilities/__init__.py
index d2a910e..dc10b47 100644
--- a/shenfun/utilities/__init__.py
+++ b/shenfun/utilities/__init__.py
@@ -246,6 +246,9 @@ def outer3D(a, b, c, symmetric):
     c[0] = a[0]*b[0]
     c[1] = a[0]*b[1]
     c[2] = a[0]*b[2]
+    c[4] = a[1]*b[1]
+    c[5] = a[1]*b[2]
+    c[8] = a[2]*b[2]
     if symmetric:
         c[3] = c[1]
         c[6] = c[2]
@@ -254,9 +257,6 @@ def outer3D(a, b, c, symmetric):
         c[3] = a[1]*b[0]
         c[6] = a[2]*b[0]
         c[7] = a[2]*b[1]
-    c[4] = a[1]*b[1]
-    c[5] = a[1]*b[2]
-    c[8] = a[2]*b[2]
 
 def dot(u, v, output_array=None, forward_output=True):
     """Return dot product of u and v
-- 
2.43.0


From 11cb5d661cae73351ab4448a5870c2154a8855fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 50/71] fix: dot product returned as Array did not release its
 intermediate space

---
 shenfun/utilities/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shenfun/utilities/__init__.py b/shenfun/utilities/__init__.py
index dc10b47..70d544c 100644
--- a/shenfun/utilities/__init__.py
+++ b/shenfun/utilities/__init__.py
@@ -316,6 +316,8 @@ def dot(u, v, output_array=None, forward_output=True):
 
         Top = To.get_dealiased()
         uv = Array(Top)
+        if forward_output is not True: # To is not returned
+            To.destroy(destroy_subcomm=False)
     uv.fill(0)
 
     if Top.is_padded:
-- 
2.43.0


From 8e06f65dd587ae8667ed600629659aa7dfa64e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 51/71] fix: project with two non-periodic directions ignored
 the scale of mapped coordinates

---
 shenfun/forms/project.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shenfun/forms/project.py b/shenfun/forms/project.py
index a64886c..97486a6 100644
--- a/shenfun/forms/project.py
+++ b/shenfun/forms/project.py
@@ -157,6 +157,7 @@ def project(uh, T, output_array=None, fill=True, use_to_ortho=True, use_assign=T
 def _solve_two_nonperiodic(B, output_array):
     """Solve in place for one tensor product matrix with two non-diagonal
     axes, where one of the axes may be distributed"""
+    B = B.get_simplified()
     pencilA = B.space.forward.output_pencil
     npaxes = list(B.naxes)
     assert len(npaxes) == 2
@@ -172,6 +173,7 @@ def _solve_two_nonperiodic(B, output_array):
     output_arrayB2 = B.mats[second_axis].solve(output_arrayB, output_arrayB2, axis=second_axis)
     transAB.backward(output_arrayB2, output_array)
     transAB.destroy()
+    output_array /= B.scale
     return output_array
 
 
-- 
2.43.0


From 4cff9fed337caf1a3c3c9a70001be918dea6ac66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:21 +0000
Subject: [PATCH 52/71] fix: collapsed Fourier transforms ignored the measure
 of mapped coordinates

---
 shenfun/tensorproductspace.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 5e3f0c2..1805c2c 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -407,6 +407,9 @@ class TensorProductSpace(PFFT):
             # Try to collapse some Fourier transforms into one.
             if np.any([abs(base.padding_factor - 1.0) > 1e-6 for base in self.bases]):
                 collapse_fourier = False
+            if not self.coors.is_cartesian:
+                # Forward transforms of each axis account for the measure of that axis
+                collapse_fourier = False
             if collapse_fourier:
                 F = lambda ax: self.bases[ax].family() == 'fourier' and self.subcomm[ax].Get_size() == 1
                 axis = self.axes[-1][-1]
-- 
2.43.0


From a84d8d3fa8ca7c16d0e2c2a7f8d29073febf4101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:22 +0000
Subject: [PATCH 53/71] fix: boundary values were scaled with the measure of
 mapped coordinates

---
 shenfun/spectralbase.py       |  4 +++-
 shenfun/tensorproductspace.py | 45 ++++++++++++++++++++++-------------
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index 85413e6..57c6982 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -1040,7 +1040,9 @@ class SpectralBase:
         #assert len(dV) == 1
         dv = dV[0]
         msi = dv[msx]
-        if self.axis == self.dimensions-1:
+        # Like get_mass_matrix, the last axis takes care of the constant
+        dim = self.tensorproductspace.dimensions if self.tensorproductspace else self.dimensions
+        if self.axis == dim-1:
             msi *= dv['coeff']
         return inner_product((self, 0), (self.get_bc_space(), 0), msi)
 
diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 1805c2c..61fef0e 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -1111,22 +1111,24 @@ class TensorProductSpace(PFFT):
         u : Array
         """
         dx = self.coors.get_sqrt_det_g()
-        mesh = self.local_mesh(True)
         if dx == 1:
             return u
+        u *= self.evaluate_measure(dx)
+        return u
 
-        if isinstance(dx, Number):
-            u *= dx
-            return u
+    def evaluate_measure(self, dx):
+        """Return measure evaluated on the local part of the quadrature mesh
 
-        sym0 = dx.free_symbols
-        m = []
-        for sym in sym0:
-            j = 'xyzrs'.index(str(sym))
-            m.append(mesh[j])
-        xj = sp.lambdify(tuple(sym0), dx)(*m)
-        u *= xj
-        return u
+        Parameters
+        ----------
+        dx : Number or Sympy expression
+        """
+        if isinstance(dx, Number):
+            return dx
+        mesh = self.local_mesh(True)
+        sym0 = tuple(dx.free_symbols)
+        m = [mesh['xyzrs'.index(str(sym))] for sym in sym0]
+        return sp.lambdify(sym0, dx)(*m)
 
     def __iter__(self):
         return iter(self.bases)
@@ -2045,19 +2047,28 @@ class BoundaryValues:
             if len(T.get_nonhomogeneous_axes()) == 1:
                 for j, bci in enumerate(self.bc.orderedvals()):
                     from .spectralbase import FuncWrap
+                    # Forward transforms are for arrays times the measure, and
+                    # each base accounts for its own part. So on intermediate
+                    # steps the boundary values include the measure of all the
+                    # other bases. The constant belongs to the last axis.
+                    msdict = split(T.coors.get_sqrt_det_g())[0]
+                    ms = 1
+                    for axis, base in enumerate(T.bases):
+                        if axis != self.axis:
+                            ms = ms*msdict['xyzrs'[axis]]
+                            if axis == T.dimensions-1:
+                                ms = ms*msdict['coeff']
+                    bm = T.evaluate_measure(ms)*b
                     if number_of_bases_after_this == 0:
                         # Inhomogeneous base is the first to be transformed
-                        b_hat = b
+                        b_hat = bm
                     else:
                         i = number_of_bases_after_this
                         u_hat = T.forward._xfftn[i].input_array
-                        dx = T.coors.get_sqrt_det_g()
-                        msdict = split(dx)
-                        c = msdict[0]['coeff']
                         fun = FuncWrap(lambda x, y, **kw: x, u_hat, u_hat) # Do-nothing
                         fwd = Transform(list(T.forward._xfftn[:i])+[fun],
                                         T.forward._transfer[:i], [[], []])
-                        b_hat = fwd(c*b).copy()
+                        b_hat = fwd(bm).copy()
 
                     # Now b_hat contains the correct slices in slm1 and slm2
                     # These are the values to use on intermediate steps.
-- 
2.43.0


From 0d0898909ad402253e92b849e9134c48d62d097b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:59 +0000
Subject: [PATCH 54/71] fix: vandermonde matrix of padded ultraspherical bases

---
 shenfun/ultraspherical/bases.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index 603f2f9..cff4078 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -141,7 +141,7 @@ class Orthogonal(JacobiBase):
         V = self.jacobiQ(x, self.alpha, self.shape(False))
         if self.alpha != 0:
             #V *= sp.lambdify(n, cn(self.alpha, self.alpha, n))(np.arange(self.N))[None, :]
-            V *= np.array([cn(self.alpha, self.alpha, n).subs(n, i) for i in np.arange(self.N)], dtype=V.dtype)[None, :]
+            V *= np.array([cn(self.alpha, self.alpha, n).subs(n, i) for i in np.arange(V.shape[1])], dtype=V.dtype)[None, :]
         return V
 
     @property
@@ -203,7 +203,7 @@ class Orthogonal(JacobiBase):
         V = self.derivative_jacobiQ(x, self.alpha, k)
         if self.alpha != 0:
             #V *= sp.lambdify(n, cn(self.alpha, self.alpha, n))(np.arange(self.N))[None, :]
-            V *= np.array([cn(self.alpha, self.alpha, n).subs(n, i) for i in np.arange(self.N)], dtype=V.dtype)[None, :]
+            V *= np.array([cn(self.alpha, self.alpha, n).subs(n, i) for i in np.arange(V.shape[1])], dtype=V.dtype)[None, :]
         return V
 
     def evaluate_basis_all(self, x=None, argument=0):
-- 
2.43.0


From c2a201965da117d14c8853cab402763ccef78234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:43 +0000
Subject: [PATCH 55/71] fix: unweighted quadrature weights of padded Jacobi
 bases used the unpadded modes

---
 shenfun/jacobi/bases.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/shenfun/jacobi/bases.py b/shenfun/jacobi/bases.py
index aaa5d9b..eb2b02c 100644
--- a/shenfun/jacobi/bases.py
+++ b/shenfun/jacobi/bases.py
@@ -77,18 +77,16 @@ class JacobiBase(SpectralBase):
 
         """
         xj, wj = self.points_and_weights()
-        h = self.l2_norm_sq()
         uj = np.zeros(len(xj))
         b = self.vandermonde(xj)
-        for j in range(len(xj)):
-            for i in range(self.N):
-                if i == 0:
-                    fi = 2
-                else:
-                    fl = self.orthogonal_basis_function(i=i).as_poly().integrate()
-                    fi = fl(1)-fl(-1)
-                uj[j] += (b[j, i] / h[i]) * fi
-            uj[j] *= wj[j]
+        for i in range(len(xj)): # There may be more than N points (padding)
+            if i == 0:
+                fi = 2
+            else:
+                fl = self.orthogonal_basis_function(i=i).as_poly().integrate()
+                fi = fl(1)-fl(-1)
+            uj += b[:, i]*float(fi/sp.sympify(self.l2_norm_sq(i)))
+        uj *= wj
         return uj
 
     def lagrange_poly(self, i):
-- 
2.43.0


From 2bc32c9c8dfad25db1df1ff2967ac13b1344c70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:12 +0000
Subject: [PATCH 56/71] fix: mass matrices of padded spaces used the unpadded
 quadrature

---
 shenfun/matrixbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index d0b2a25..a9067fb 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1876,7 +1876,7 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
             x = test2.points_and_weights(N, map_true_domain=False)[0]
             ws = test2.get_measured_weights(N, measure, map_true_domain=False)
         else:
-            N = test[0].N
+            N = test[0].shape(False)
             x = test[0].points_and_weights(N, map_true_domain=False)[0]
             ws = test[0].get_measured_weights(N, measure, map_true_domain=False)
         u = trial[0].evaluate_basis_derivative_all(x=x, k=trial[1])[:, :K1]
-- 
2.43.0


From c2279725a1b04f416841b2f8ffba29e26358b380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:08 +0000
Subject: [PATCH 57/71] fix: backward transform of tensors to the mesh of
 another tensor space

---
 shenfun/tensorproductspace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 61fef0e..0cf3366 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -1819,9 +1819,11 @@ class VectorTransform:
 
     def __call__(self, input_array, output_array, kind=None, **kw):
         mesh = kw.get('mesh', None) # only backward transform
+        if isinstance(mesh, CompositeSpace):
+            mesh = mesh.flatten() # as self._transforms
         for i, transform in enumerate(self._transforms):
             if mesh is not None:
-                mi = mesh[i] if isinstance(mesh, CompositeSpace) else mesh
+                mi = mesh[i] if isinstance(mesh, list) else mesh
                 kw['mesh'] = mi
             output_array.__array__()[i] = transform(input_array.__array__()[i],
                                                     output_array.__array__()[i],
-- 
2.43.0


From c8ee57bd64b462bc39cc04b5fdfba3ccf344b8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:16 +0000
Subject: [PATCH 58/71] fix: constant boundary values in two directions set
 derivative conditions

---
 shenfun/tensorproductspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 0cf3366..4078d8a 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -2111,7 +2111,7 @@ class BoundaryValues:
                                 elif key == 'N4':
                                     bco[key] = bcj.diff(xx, 4).subs(xx, xj)/df**4
                             else:
-                                bco[key] = bcj
+                                bco[key] = bcj if key == 'D' else 0
                         other_base.bc.bcs[:] = other_base.bcs.orderedvals()
                         other_base.bc.bcs_final[:] = other_base.bcs.orderedvals()
                     ua[:] = b[this_base.si[-num_bcs+i]]
-- 
2.43.0


From f46fe01d5a60bd5f1c79a40199d6db122f0abdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:33 +0000
Subject: [PATCH 59/71] fix: time-dependent boundary values in two directions

---
 shenfun/tensorproductspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 4078d8a..d522be1 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -2094,7 +2094,8 @@ class BoundaryValues:
                 num_bcs = this_base.bcs.num_bcs()
                 df = 2./(other_base.domain[1]-other_base.domain[0])
                 for i, bcj in enumerate(this_base.bcs.orderedvals()):
-                    sym = sp.sympify(bcj).free_symbols
+                    bcj = sp.sympify(bcj).subs(sp.symbols('t', real=True), self.bc_time)
+                    sym = bcj.free_symbols
                     xx = sym.pop() if len(sym) == 1 else None
                     for lr_other, bco in other_base.bcs.items():
                         xj = other_base.domain[lr[lr_other]]
-- 
2.43.0


From 74680e5b562ecc6dd1e7845ae54bc72db0fc4cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:33 +0000
Subject: [PATCH 60/71] fix: truncated size of padded R2C space

---
 shenfun/fourier/bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/fourier/bases.py b/shenfun/fourier/bases.py
index 78603e9..687b7be 100644
--- a/shenfun/fourier/bases.py
+++ b/shenfun/fourier/bases.py
@@ -361,7 +361,7 @@ class R2C(FourierBase):
 
     def _get_truncarray(self, shape, dtype):
         shape = list(shape)
-        shape[self.axis] = int(shape[self.axis] / self.padding_factor)
+        shape[self.axis] = int(np.round(shape[self.axis] / self.padding_factor))
         shape[self.axis] = shape[self.axis]//2 + 1
         return fftw.aligned(shape, dtype=dtype)
 
-- 
2.43.0


From 7030c30ae55e15a03a6b8aa9dfed72ed4a6386aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:33 +0000
Subject: [PATCH 61/71] fix: padded size lost a point due to roundoff

---
 shenfun/spectralbase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index 57c6982..53074cf 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -50,7 +50,10 @@ class SpectralBase:
         self._stencil_matrix = {}
         self.padding_factor = padding_factor
         if padding_factor != 1:
-            self.padding_factor = np.floor(N*padding_factor)/N if N > 0 else 1
+            M = np.floor(N*padding_factor)
+            self.padding_factor = M/N if N > 0 else 1
+            if np.floor(N*self.padding_factor) < M: # due to roundoff
+                self.padding_factor = np.nextafter(self.padding_factor, np.inf)
         self.dealias_direct = dealias_direct
         self._mass = None         # Mass matrix (if needed)
         self._dtype = dtype
-- 
2.43.0


From aa1f9ba962a9dcbc5b8fb7f43c25d190617cbb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:39 +0000
Subject: [PATCH 62/71] fix: boundary conditions N4, R and W on other domains

---
 shenfun/spectralbase.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index 53074cf..85fee6e 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -2028,6 +2028,12 @@ class BoundaryConditions(dict):
                     val[bc] /= df**2
                 elif bc == 'N3':
                     val[bc] /= df**3
+                elif bc == 'N4':
+                    val[bc] /= df**4
+                elif bc == 'R':
+                    val[bc] = (v[0]*df, v[1])
+                elif bc == 'W':
+                    val[bc] = (v[0]*df, v[1]/df)
         dict.__init__(self, bcs)
 
     def orderednames(self):
-- 
2.43.0


From 1cf69e4c816f4624da5f823386543997a9cfd105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:39 +0000
Subject: [PATCH 63/71] fix: boundary functions of R and W conditions

---
 shenfun/spectralbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index 85fee6e..bc127cd 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -2052,7 +2052,7 @@ class BoundaryConditions(dict):
         return len(self.orderedvals())
 
     def num_derivatives(self):
-        n = {'D': 0, 'R': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4}
+        n = {'D': 0, 'R': 1, 'W': 2, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4}
         num_diff = 0
         for val in self.values():
             for k in val:
-- 
2.43.0


From fae3d77c2940a25c449cbef47dadf348ad917f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:25 +0000
Subject: [PATCH 64/71] fix: constraints of SolverGeneric2ND set more than one
 equation

---
 shenfun/la.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 2f5bd24..f801410 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -933,11 +933,14 @@ class SolverGeneric2ND:
                     _, zerorow = A[row].nonzero()
                     A[(row, zerorow)] = 0
                     A[row, row] = 1
-                    b[row] = val
                 self.mats2D[0] = A.tocsc()
-            else:
-                for (row, val) in constraints:
-                    b[row] = val
+            # The row is that of the matrix for the flattened nondiagonal axes
+            s0 = list(self.T.slice())
+            if self.T.dimensions == 3:
+                s0[self.get_diagonal_axis()] = 0
+            b0 = b[tuple(s0)]
+            for (row, val) in constraints:
+                b0[np.unravel_index(row, b0.shape)] = val
         return b
 
     def assemble(self):
-- 
2.43.0


From 57ca599d1b3218222b9acf9a41deec78500c9efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:15 +0000
Subject: [PATCH 65/71] fix: Chebyshev Helmholtz and Biharmonic solvers crash
 without output array

---
 shenfun/chebyshev/la.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shenfun/chebyshev/la.py b/shenfun/chebyshev/la.py
index cdc7e72..9eb3ad5 100644
--- a/shenfun/chebyshev/la.py
+++ b/shenfun/chebyshev/la.py
@@ -300,6 +300,8 @@ class Helmholtz:
         determined on creation of the class.
 
         """
+        if u is None:
+            u = b
         if len(self.bc_mats) > 0:
             u.set_boundary_dofs()
             w0 = np.zeros_like(u)
@@ -538,6 +540,8 @@ class Biharmonic:
         determined on creation of the class.
 
         """
+        if u is None:
+            u = b
         if len(self.bc_mats) > 0:
             u.set_boundary_dofs()
             w0 = np.zeros_like(u)
-- 
2.43.0


From 644702738e76eaa17910b73a444b246c89ae37e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:15 +0000
Subject: [PATCH 66/71] fix: Chebyshev Helmholtz and Biharmonic solvers leave
 the boundary coefficients of the output

---
 shenfun/chebyshev/la.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shenfun/chebyshev/la.py b/shenfun/chebyshev/la.py
index 9eb3ad5..734a5f2 100644
--- a/shenfun/chebyshev/la.py
+++ b/shenfun/chebyshev/la.py
@@ -315,6 +315,8 @@ class Helmholtz:
                 assert len(constraints) == 1
                 s = [0]*u.ndim
                 u[tuple(s)] = constraints[0][1]
+        if hasattr(u, 'set_boundary_dofs'):
+            u.set_boundary_dofs()
         return u
 
     def matvec(self, v, c):
@@ -549,6 +551,8 @@ class Biharmonic:
                 b -= bc_mat.matvec(u, w0)
         self.Biharmonic_Solve(b, u, self.u0, self.u1, self.u2, self.l0,
                               self.l1, self.ak, self.bk, self.a0, self.axis)
+        if hasattr(u, 'set_boundary_dofs'):
+            u.set_boundary_dofs()
 
         return u
 
-- 
2.43.0


From dc3403050877b5d60f6c539463a1640d44001d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:46 +0000
Subject: [PATCH 67/71] fix: compiled ThreeDMA solver used the wrong diagonal

---
 shenfun/optimization/cython/la.pyx     | 2 +-
 shenfun/optimization/numba/threedma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/optimization/cython/la.pyx b/shenfun/optimization/cython/la.pyx
index e41c0b0..3bb2e93 100644
--- a/shenfun/optimization/cython/la.pyx
+++ b/shenfun/optimization/cython/la.pyx
@@ -571,7 +571,7 @@ cdef void ThreeDMA_inner_solve_ptr(T* u, int st, double* data, int m0, int m1):
         int i, n = m1
         double* d = &data[0]
         double* u1 = &data[m1+2]
-        double* u2 = &data[m1+4]
+        double* u2 = &data[2*m1+4]
     u[(n-1)*st] = u[(n-1)*st]/d[n-1]
     u[(n-2)*st] = u[(n-2)*st]/d[n-2]
     u[(n-3)*st] = (u[(n-3)*st]-u1[n-3]*u[(n-1)*st])/d[n-3]
diff --git a/shenfun/optimization/numba/threedma.py b/shenfun/optimization/numba/threedma.py
index 881fe3d..2695c5f 100644
--- a/shenfun/optimization/numba/threedma.py
+++ b/shenfun/optimization/numba/threedma.py
@@ -25,7 +25,7 @@ def ThreeDMA_Solve(x, data, axis=0):
 def ThreeDMA_inner_solve(u, data):
     d = data[0, :]
     u1 = data[1, 2:]
-    u2 = data[1, 4:]
+    u2 = data[2, 4:]
     n = d.shape[0]
     u[n-1] = u[n-1]/d[n-1]
     u[n-2] = u[n-2]/d[n-2]
-- 
2.43.0


From 6c51a925a25174ec017fdc9821e1897662a2df05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:58 +0000
Subject: [PATCH 68/71] fix: Biharmonic LU writes out of bounds for small
 resolutions

---
 shenfun/optimization/cython/la.pyx       | 21 ++++++++++++---------
 shenfun/optimization/numba/biharmonic.py |  7 ++++---
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/shenfun/optimization/cython/la.pyx b/shenfun/optimization/cython/la.pyx
index 3bb2e93..4ba4f48 100644
--- a/shenfun/optimization/cython/la.pyx
+++ b/shenfun/optimization/cython/la.pyx
@@ -1048,9 +1048,10 @@ def LU_oe_Biharmonic_1D(bint odd,
 
     M = sii.shape[0]
 
-    c0.resize(M)
-    c1.resize(M)
-    c2.resize(M)
+    # The first five items are set below, also if there are fewer rows
+    c0.resize(max(M, 5))
+    c1.resize(max(M, 5))
+    c2.resize(max(M, 5))
 
     c0[0] = a*sii[0] + b*aii[0] + c*bii[0]
     c0[1] = a*siu[0] + b*aiu[0] + c*biu[0]
@@ -1650,9 +1651,10 @@ def LU_Biharmonic_3D_n(np.int64_t axis,
 
     M = sii.shape[0]//2
 
-    c0.resize(M)
-    c1.resize(M)
-    c2.resize(M)
+    # The first five items are set below, also if there are fewer rows
+    c0.resize(max(M, 5))
+    c1.resize(max(M, 5))
+    c2.resize(max(M, 5))
 
     if axis == 0:
         N1 = beta.shape[1]
@@ -1949,9 +1951,10 @@ def LU_Biharmonic_2D_n(np.int64_t axis,
 
     M = sii.shape[0]//2
 
-    c0.resize(M)
-    c1.resize(M)
-    c2.resize(M)
+    # The first five items are set below, also if there are fewer rows
+    c0.resize(max(M, 5))
+    c1.resize(max(M, 5))
+    c2.resize(max(M, 5))
 
     if axis == 0:
         N1 = beta.shape[1]
diff --git a/shenfun/optimization/numba/biharmonic.py b/shenfun/optimization/numba/biharmonic.py
index 9fec816..48576ed 100644
--- a/shenfun/optimization/numba/biharmonic.py
+++ b/shenfun/optimization/numba/biharmonic.py
@@ -98,9 +98,10 @@ def LU_oe_Biharmonic_1D(odd, a, b, c,
                         u0, u1, u2, l0, l1):
 
     M = sii.shape[0]
-    c0 = np.zeros(M)
-    c1 = np.zeros(M)
-    c2 = np.zeros(M)
+    # The first five items are set below, also if there are fewer rows
+    c0 = np.zeros(max(M, 5))
+    c1 = np.zeros(max(M, 5))
+    c2 = np.zeros(max(M, 5))
 
     c0[0] = a*sii[0] + b*aii[0] + c*bii[0]
     c0[1] = a*siu[0] + b*aiu[0] + c*biu[0]
-- 
2.43.0


From e05c9e3096d08c0d71bcaf0543e22eb65939eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:19 +0000
Subject: [PATCH 69/71] fix: Biharmonic solver gives nan for odd resolutions

---
 shenfun/chebyshev/la.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/shenfun/chebyshev/la.py b/shenfun/chebyshev/la.py
index 734a5f2..8e6125c 100644
--- a/shenfun/chebyshev/la.py
+++ b/shenfun/chebyshev/la.py
@@ -489,6 +489,14 @@ class Biharmonic:
         ail, aii, aiu = A[-2], A[0], A[2]
         bill, bil, bii, biu, biuu = B[-4], B[-2], B[0], B[2], B[4]
         M = sii[::2].shape[0]
+        self._extra = None
+        if sii.shape[0] % 2 == 1:
+            # The even and the odd modes are solved for together. Add one
+            # decoupled equation in order to get equally many
+            self._extra = sii.shape[0]
+            siu, siuu, ail, aii, aiu, bill, bil, bii, biu, biuu = [
+                np.append(d, 0.) for d in (siu, siuu, ail, aii, aiu, bill, bil, bii, biu, biuu)]
+            sii = np.append(sii, 1.)
         shape[S.axis] = M
         ss = copy(shape)
         ss.insert(0, 2)
@@ -549,6 +557,10 @@ class Biharmonic:
             w0 = np.zeros_like(u)
             for bc_mat in self.bc_mats:
                 b -= bc_mat.matvec(u, w0)
+        if self._extra is not None:
+            s = [slice(None)]*b.ndim
+            s[self.axis] = self._extra
+            b[tuple(s)] = 0
         self.Biharmonic_Solve(b, u, self.u0, self.u1, self.u2, self.l0,
                               self.l1, self.ak, self.bk, self.a0, self.axis)
         if hasattr(u, 'set_boundary_dofs'):
-- 
2.43.0


From 2cf25bc588e38bb34a1f3592939f60edad0ac087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:03 +0000
Subject: [PATCH 70/71] fix: evaluate_basis of ultraspherical polynomials

---
 shenfun/ultraspherical/bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index cff4078..1b4fed4 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -181,7 +181,7 @@ class Orthogonal(JacobiBase):
             output_array = np.zeros(x.shape)
         output_array = eval_jacobi(i, float(self.alpha), float(self.alpha), x, out=output_array)
         if self.alpha != 0:
-            output_array *= cn(self.alpha, self.alpha, i).n()
+            output_array *= float(cn(self.alpha, self.alpha, i))
         return output_array
 
     def evaluate_basis_derivative(self, x=None, i=0, k=0, output_array=None):
-- 
2.43.0


From 50c51bf5abd181de2dd07a42f80fb0f421358e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:58 +0000
Subject: [PATCH 71/71] fix: get_homogeneous drops boundary conditions of
 generic spaces

---
 shenfun/spectralbase.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index bc127cd..b1d0c48 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -1300,6 +1300,12 @@ class SpectralBase:
                  padding_factor=self.padding_factor,
                  dealias_direct=self.dealias_direct,
                  coordinates=self.coors.coordinates)
+        if hasattr(self, 'bcs'):
+            # keep the conditions, with zero boundary values
+            d['bc'] = copy.deepcopy(self.bcs)
+            for bcs in d['bc'].values():
+                for key, val in bcs.items():
+                    bcs[key] = (val[0], 0) if isinstance(val, (tuple, list)) else 0
         if hasattr(self, '_scaled'):
             d['scaled'] = self._scaled
 
-- 
2.43.0

