From 57dfd5956c861c28a770c2d6dedd17a37e315579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 01/57] fix: in-place product of matrix Green's functions
 rejected square operands

---
 python/triqs/gf/gf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index b7c1a99..4d6177e 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -483,8 +483,8 @@ class Gf(metaclass=AddMethod):
 
             if self.target_rank == 2:
                 if arg.target_rank == 2:
-                    assert arg.target_shape[0] != arg.target_shape[1], "In place multiplication not supported if"
-                    "the argument is a nonsquare matrix. Use regular multiplication instead."
+                    assert arg.target_shape[0] == arg.target_shape[1], \
+                        "In place multiplication not supported if the argument is a nonsquare matrix. Use regular multiplication instead."
                     np.matmul(self.data, arg.data, out=self.data)
                 elif arg.target_rank == 0:
                     self.data[:] *= arg.data[..., None, None]
-- 
2.43.0


From 8836f3b342640b389395244fdaa81a9549868335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 02/57] fix: Gf.copy_from checks the shapes before it changes
 the mesh

---
 python/triqs/gf/gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 4d6177e..fcfe911 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -261,8 +261,8 @@ class Gf(metaclass=AddMethod):
 
     def copy_from(self, another):
         """Copy the data of another Greens function into self."""
-        self._mesh.copy_from(another.mesh)
         assert self._data.shape == another._data.shape, "Shapes are incompatible: " + str(self._data.shape) + " vs " + str(another._data.shape)
+        self._mesh.copy_from(another.mesh)
         self._data[:] = another._data[:]
         self.__check_invariants()
 
-- 
2.43.0


From de5204e7a6a5b075f6a01eb8c77aa8f735db0936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 03/57] fix: Block2Gf can be pickled

---
 python/triqs/gf/block2_gf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 997ff85..c0c0182 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -23,6 +23,9 @@ from itertools import chain, product
 
 import numpy as np
 
+def call_factory_from_dict(cl,name, dic):
+    """Given a class cl and a dict dic, it calls cl.__factory_from_dict__(dic)"""
+    return cl.__factory_from_dict__(name, dic)
 
 class Block2Gf:
     """
@@ -182,7 +185,7 @@ class Block2Gf:
     #----------------------   IO    -------------------------------------
 
     def __reduce__(self):
-        return lambda cl,name,dic: cl.__factory_from_dict__(name, dic), (self.__class__,self.name, self.__reduce_to_dict__())
+        return call_factory_from_dict, (self.__class__,self.name, self.__reduce_to_dict__())
 
     def __reduce_to_dict__(self):
         d = {"%s_%s"%bn : g for bn, g in self}
-- 
2.43.0


From ff3df5efeb4726e521fd7f578212b72acd450c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 04/57] fix: Block2Gf reports an unknown block name as
 IndexError

---
 python/triqs/gf/block2_gf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index c0c0182..bbed5cf 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -218,14 +218,14 @@ class Block2Gf:
     def __getitem__(self,key):
         try:
             g = self.__GFlist[self.__indices1.index(key[0])][self.__indices2.index(key[1])]
-        except KeyError:
+        except ValueError:
             raise IndexError("Block index '" + repr(key) + "' incorrect. Possible indices are: " + repr(list(product(self.__indices1,self.__indices2))))
         return g
 
     def __setitem__(self,key,val):
         try:
             g = self.__GFlist[self.__indices1.index(key[0])][self.__indices2.index(key[1])]
-        except KeyError:
+        except ValueError:
             raise IndexError("Block index '" + repr(key) + "' incorrect. Possible indices are: "+ repr(list(product(self.__indices1,self.__indices2))))
         g << val
 
-- 
2.43.0


From d7460e80976b8838edc94482bb0fd5f887026e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 05/57] fix: Block2Gf << initializes every block with a common
 initializer

---
 python/triqs/gf/block2_gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index bbed5cf..3c7eb05 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -239,7 +239,7 @@ class Block2Gf:
         if isinstance(A, self.__class__):
            for bn, g in self: g << A[bn]
         else:
-           for bn, g in self:  self[bn] << A[bn]
+           for bn, g in self: g << A
         return self
 
     def __iadd__(self,arg):
-- 
2.43.0


From 098e0ff645ab832510304adc51a25e7cdea58e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 06/57] fix: undefined name in the error message of
 BlockGf.copy_from

---
 python/triqs/gf/block_gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index ba6c8bb..459f953 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -153,7 +153,7 @@ class BlockGf:
         assert isinstance(G2, BlockGf)
         for (i,g),(i2,g2) in zip(self,G2): 
            if  (g.target_shape[0],g.target_shape[1]) != (g2.target_shape[0],g2.target_shape[1]): 
-               raise RuntimeError("Blocks %s and %s of the Green Function do have the same dimension"%(i1,i2)) 
+               raise RuntimeError("Blocks %s and %s of the Green Function do have the same dimension"%(i,i2)) 
         for (i,g),(i2,g2) in zip(self,G2): g.copy_from(g2)
 
      #--------------  Iterators -------------------------
-- 
2.43.0


From 78699025a526de15bd39914c9263be139828d94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 07/57] fix: lazy_expressions.transform applies Fterm below the
 root

---
 python/triqs/gf/lazy_expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/lazy_expressions.py b/python/triqs/gf/lazy_expressions.py
index bb81536..5122150 100644
--- a/python/triqs/gf/lazy_expressions.py
+++ b/python/triqs/gf/lazy_expressions.py
@@ -120,7 +120,7 @@ def transform (expr, Fnode, Fterm = lambda x: x ):
            it transforms the expression recursively
     """
     if expr.tag == "T": return LazyExpr("T", Fterm(expr.childs[0]))
-    tag, ch = Fnode (expr.tag, [transform (e, Fnode) for e in expr.childs])
+    tag, ch = Fnode (expr.tag, [transform (e, Fnode, Fterm) for e in expr.childs])
     ch = [LazyExpr(x) for x in ch]
     return LazyExpr (tag, *ch)
 
-- 
2.43.0


From fdabdc4f2e8a0a4b02b57d2e0b46175287bca10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 08/57] fix: undefined names in the lazy evaluation context of
 Gf

---
 python/triqs/gf/descriptor_base.py | 2 +-
 python/triqs/gf/gf.py              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/descriptor_base.py b/python/triqs/gf/descriptor_base.py
index f194e9a..9129d58 100644
--- a/python/triqs/gf/descriptor_base.py
+++ b/python/triqs/gf/descriptor_base.py
@@ -35,7 +35,7 @@ class LazyCTX:
     def __eq__ (self, y):
         return isinstance(y, self.__class__) and self._is_compatible_for_ops(y.G)
     def __call__ (self, x): 
-        if not isinstance(x, descriptor_base.Base): return x
+        if not isinstance(x, Base): return x
         tmp = self.G.copy()
         x(tmp)
         return tmp
diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index fcfe911..dec6c1b 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -377,7 +377,7 @@ class Gf(metaclass=AddMethod):
     # --------------  Lazy system -------------------------------------
 
     def __lazy_expr_eval_context__(self) : 
-        return LazyCTX(self)
+        return descriptor_base.LazyCTX(self)
 
     def __lshift__(self, A):
         """ A can be two things:
-- 
2.43.0


From 95d92cbaf57e22858f86519c0fde5f752bf28272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 09/57] fix: SemiCircular on a real-frequency mesh is diagonal
 in the target space

---
 python/triqs/gf/descriptors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/descriptors.py b/python/triqs/gf/descriptors.py
index 61d5fc0..7ab945c 100644
--- a/python/triqs/gf/descriptors.py
+++ b/python/triqs/gf/descriptors.py
@@ -96,9 +96,9 @@ semicircle
             def f(om_):
               om = om_.real + mu
               if (om > -D) and (om < D):
-                return (2.0/D**2) * (om - 1j* sqrt(D**2 - om**2))
+                return (2.0/D**2) * (om - 1j* sqrt(D**2 - om**2)) * Id
               else:
-                return (2.0/D**2) * (om - copysign(1,om) * sqrt(om**2 - D**2))
+                return (2.0/D**2) * (om - copysign(1,om) * sqrt(om**2 - D**2)) * Id
         else:
             raise TypeError("This initializer is only correct in frequency")
 
-- 
2.43.0


From 5cd6ef57491b587907f8c55afe7402fc94a3e192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 10/57] fix: str of a SemiCircular descriptor

---
 python/triqs/gf/descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/descriptors.py b/python/triqs/gf/descriptors.py
index 7ab945c..724ecfa 100644
--- a/python/triqs/gf/descriptors.py
+++ b/python/triqs/gf/descriptors.py
@@ -81,7 +81,7 @@ semicircle
 """
         Base.__init__(self, half_bandwidth=half_bandwidth, chem_potential=chem_potential)
 
-    def __str__(self): return "SemiCircular(%s, %s)"%self.half_bandwidth, chem_potential 
+    def __str__(self): return "SemiCircular(%s, %s)"%(self.half_bandwidth, self.chem_potential)
 
     def __call__(self,G):
         D = self.half_bandwidth
-- 
2.43.0


From 4dbb9ab82a708747d7b84a0d78be9c1bccbc5634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 11/57] fix: MeshProduct.to_data_index returns a tuple usable
 as an array index

---
 python/triqs/gf/mesh_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/mesh_product.py b/python/triqs/gf/mesh_product.py
index e27bbec..62be47e 100644
--- a/python/triqs/gf/mesh_product.py
+++ b/python/triqs/gf/mesh_product.py
@@ -98,7 +98,7 @@ class MeshProduct:
     def to_data_index(self, idx) :
         """
         """
-        return (x.to_data_index(i) for x,i in zip(self._mlist, idx))
+        return tuple(x.to_data_index(i) for x,i in zip(self._mlist, idx))
 
     def __repr__(self):
         """ """
-- 
2.43.0


From 0306029f8eece7e3b26d42cc0ba4f030968e3d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 12/57] fix: calling a default constructed buffered_function
 throws as documented

The index was left uninitialised and buffer.size() - 1 wraps for the empty buffer.
---
 c++/triqs/utility/buffered_function.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/utility/buffered_function.hpp b/c++/triqs/utility/buffered_function.hpp
index 7be2d61..2518290 100644
--- a/c++/triqs/utility/buffered_function.hpp
+++ b/c++/triqs/utility/buffered_function.hpp
@@ -54,18 +54,18 @@ namespace triqs {
 
       /// Returns the next element. Refills the buffer if necessary.
       R operator()() {
-        if (index > buffer.size() - 1) refill(this);
+        if (index >= buffer.size()) refill(this);
         return buffer[index++];
       }
 
       /// Returns the future next element, without increasing the index. Refills the buffer if necessary.
       R preview() {
-        if (index > buffer.size() - 1) refill(this);
+        if (index >= buffer.size()) refill(this);
         return buffer[index];
       }
 
       private:
-      size_t index;
+      size_t index = 0;
       std::vector<R> buffer;
       std::function<void(buffered_function *)> refill; // this refills the buffer and reset index of a buffered_function.
                                                        // NB : cannot capture this in refill because we want the object to be copyable and movable
-- 
2.43.0


From bf265b46d89d8f84a0240a3100bffeb38a3331b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 13/57] fix: fermionic sign of operators acting on more than 16
 orbitals

The parity of the 64 bit occupation was folded from the lowest 16 bits only.
---
 c++/triqs/hilbert_space/imperative_operator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/hilbert_space/imperative_operator.hpp b/c++/triqs/hilbert_space/imperative_operator.hpp
index 8009372..5ee1e92 100644
--- a/c++/triqs/hilbert_space/imperative_operator.hpp
+++ b/c++/triqs/hilbert_space/imperative_operator.hpp
@@ -174,8 +174,8 @@ namespace triqs {
 
       static bool parity_number_of_bits(uint64_t v) {
         // http://graphics.stanford.edu/~seander/bithacks.html#CountBitsSetNaive
-        // v ^= v >> 16;
-        // only ok until 16 orbitals ! assert this or put the >> 16
+        v ^= v >> 32;
+        v ^= v >> 16;
         v ^= v >> 8;
         v ^= v >> 4;
         v ^= v >> 2;
-- 
2.43.0


From da43577d6c87a3e2bcad28b03130f4482427e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 14/57] fix: subtracting a many_body_operator from itself in
 place

---
 c++/triqs/operators/many_body_operator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c++/triqs/operators/many_body_operator.hpp b/c++/triqs/operators/many_body_operator.hpp
index 191cfbf..fc4b82e 100644
--- a/c++/triqs/operators/many_body_operator.hpp
+++ b/c++/triqs/operators/many_body_operator.hpp
@@ -250,6 +250,10 @@ namespace triqs {
       }
 
       many_body_operator_generic &operator-=(many_body_operator_generic const &op) {
+        if (&op == this) { // the loop below erases the monomials it runs over
+          monomials.clear();
+          return *this;
+        }
         bool is_new_monomial;
         typename monomials_map_t::iterator it;
         for (auto const &m : op.monomials) {
-- 
2.43.0


From f6405821261c4ef361318d6c460722b0894d6048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 15/57] fix: moving or swapping a det_manip keeps its
 thresholds and its capacity for multiple rows

---
 c++/triqs/det_manip/det_manip.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index cd24620..7ac548b 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -199,6 +199,8 @@ namespace triqs {
         SW(det);
         SW(Nmax);
         SW(N);
+        SW(kmax);
+        SW(k);
         SW(last_try);
         SW(row_num);
         SW(col_num);
@@ -208,8 +210,12 @@ namespace triqs {
         SW(mat_inv);
         SW(n_opts);
         SW(n_opts_max_before_check);
+        SW(singular_threshold);
+        SW(precision_warning);
+        SW(precision_error);
         SW(w1);
         SW(wk);
+        SW(w_refill);
         SW(newdet);
         SW(newsign);
 #undef SW
-- 
2.43.0


From e977738ebf54e8c7eaa0966f90e7d0ea57dc76b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 16/57] fix: the working data of a det_manip read from HDF5
 follow its size

---
 c++/triqs/det_manip/det_manip.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 7ac548b..eaad619 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -106,6 +106,8 @@ namespace triqs {
         h5_read(gr, "mat_inv", g.mat_inv);
         g.Nmax     = first_dim(g.mat_inv); // restore Nmax
         g.last_try = NoTry;
+        g.w1.resize(g.Nmax); // the working data follow Nmax
+        g.wk.resize(g.Nmax, g.kmax);
         h5_read(gr, "det", g.det);
         h5_read(gr, "sign", g.sign);
         h5_read(gr, "row_num", g.row_num);
-- 
2.43.0


From 3d228f9db35af77729d7c9ff37be551f1db2d0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 17/57] fix: bounds checks of try_insert_k, try_remove_k (last
 row and column) and try_change_row

---
 c++/triqs/det_manip/det_manip.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index eaad619..d880150 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -643,9 +643,9 @@ namespace triqs {
         };
 
         // check consistency
-        for (int l = 0; l < k - 1; ++l) {
-          TRIQS_ASSERT(wk.i[l] != wk.i[l + 1] and 0 <= wk.i[l] and wk.i[l] < N + k);
-          TRIQS_ASSERT(wk.j[l] != wk.j[l + 1] and 0 <= wk.j[l] and wk.j[l] < N + k);
+        for (int l = 0; l < k; ++l) {
+          TRIQS_ASSERT((l == k - 1 or wk.i[l] != wk.i[l + 1]) and 0 <= wk.i[l] and wk.i[l] < N + k);
+          TRIQS_ASSERT((l == k - 1 or wk.j[l] != wk.j[l + 1]) and 0 <= wk.j[l] and wk.j[l] < N + k);
         }
 
         // w1.ksi = Delta(x_values,y_values) - Cw.MB using BLAS
@@ -831,9 +831,9 @@ namespace triqs {
         last_try = RemoveK;
 
         // check inputs
-        for (int l = 0; l < k - 1; ++l) {
-          TRIQS_ASSERT(i[l] != i[l + 1] and 0 <= i[l] and i[l] < N);
-          TRIQS_ASSERT(j[l] != j[l + 1] and 0 <= j[l] and j[l] < N);
+        for (int l = 0; l < k; ++l) {
+          TRIQS_ASSERT((l == k - 1 or i[l] != i[l + 1]) and 0 <= i[l] and i[l] < N);
+          TRIQS_ASSERT((l == k - 1 or j[l] != j[l + 1]) and 0 <= j[l] and j[l] < N);
         }
 
         for (long l = 0; l < k; ++l) {
@@ -971,7 +971,7 @@ namespace triqs {
        */
       value_type try_change_row(long i, x_type const &x) {
         TRIQS_ASSERT(last_try == NoTry);
-        TRIQS_ASSERT(i < N);
+        TRIQS_ASSERT(0 <= i and i < N);
         w1.i     = i;
         last_try = ChangeRow;
         w1.ireal = row_num[i];
-- 
2.43.0


From bc1e66fe5ae5d7a13d044bc421a51111c86214ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 18/57] fix: a NaN put into a histogram is a lost point

---
 c++/triqs/stat/histograms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/stat/histograms.cpp b/c++/triqs/stat/histograms.cpp
index 0129103..4fcc0bf 100644
--- a/c++/triqs/stat/histograms.cpp
+++ b/c++/triqs/stat/histograms.cpp
@@ -37,7 +37,7 @@ namespace triqs::stat {
   }
 
   histogram &histogram::operator<<(double x) {
-    if ((x < a) || (x > b))
+    if (!(x >= a && x <= b)) // NaN is outside too
       ++_n_lost_pts;
     else {
       auto n = int(std::floor(((x - a) * _step) + 0.5));
-- 
2.43.0


From b2c5bd2cd8b981050cfc4a545810364058fbd24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 19/57] fix: quotient of two Matsubara frequencies multiplied
 them

---
 c++/triqs/mesh/domains/matsubara.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/mesh/domains/matsubara.hpp b/c++/triqs/mesh/domains/matsubara.hpp
index 59882ef..d0558c1 100644
--- a/c++/triqs/mesh/domains/matsubara.hpp
+++ b/c++/triqs/mesh/domains/matsubara.hpp
@@ -68,7 +68,7 @@ namespace triqs::mesh {
   inline matsubara_freq operator-(matsubara_freq const &mp) { return {-(mp.n + (mp.statistic == Fermion ? 1 : 0)), mp.beta, mp.statistic}; }
 
   inline std::complex<double> operator/(matsubara_freq const &x, matsubara_freq const &y) {
-    return std::complex<double>{x} * std::complex<double>{y};
+    return std::complex<double>{x} / std::complex<double>{y};
   }
 
   inline std::complex<double> operator*(matsubara_freq const &x, matsubara_freq const &y) {
-- 
2.43.0


From f86c7d3319c14a6b7f35d26e6582b378c164bb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 20/57] fix: block_matrix_from_op accepted terms which are not
 of the form c_dag c of one block

---
 c++/triqs/operators/util/extractors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/operators/util/extractors.hpp b/c++/triqs/operators/util/extractors.hpp
index 36012a1..a109823 100644
--- a/c++/triqs/operators/util/extractors.hpp
+++ b/c++/triqs/operators/util/extractors.hpp
@@ -286,8 +286,8 @@ namespace triqs::operators::utils {
       auto const &m        = term.monomial;
       scalar_t const &coef = term.coef;
 
-      if (m.size() == 2 and m[0].dagger and not m[1].dagger and m[0].indices[0] == m[1].indices[0] and m[0].indices.size() == 2
-          or m[1].indices.size() == 2) {
+      if (m.size() == 2 and m[0].dagger and not m[1].dagger and m[0].indices.size() == 2
+          and m[1].indices.size() == 2 and m[0].indices[0] == m[1].indices[0]) {
         auto bl_name = std::get<std::string>(m[0].indices[0]);
         auto op1_idx = std::get<long>(m[0].indices[1]);
         auto op2_idx = std::get<long>(m[1].indices[1]);
-- 
2.43.0


From 4636087c93cad2d2576242d870bf7ca0b07324f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 21/57] fix: the logarithmic bins of an accumulator read from
 HDF5 accept further data

---
 c++/triqs/stat/accumulator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/stat/accumulator.hpp b/c++/triqs/stat/accumulator.hpp
index d2753ac..e490105 100644
--- a/c++/triqs/stat/accumulator.hpp
+++ b/c++/triqs/stat/accumulator.hpp
@@ -239,6 +239,7 @@ namespace triqs::stat {
       h5_write(gr, "acc", l.acc);
       h5_write(gr, "count", l.count);
       h5_write(gr, "acc_count", l.acc_count);
+      h5_write(gr, "max_n_bins", l.max_n_bins);
     }
 
     template <typename T> void h5_read(h5::group g, std::string const &name, log_binning<T> &l) {
@@ -248,6 +249,7 @@ namespace triqs::stat {
       h5_read(gr, "acc", l.acc);
       h5_read(gr, "count", l.count);
       h5_read(gr, "acc_count", l.acc_count);
+      if (gr.has_key("max_n_bins")) h5_read(gr, "max_n_bins", l.max_n_bins); // absent from older files
     }
 
   } // namespace details
-- 
2.43.0


From 492afdfd3a2596fbf25d5fa5eca4ad0becc3424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 22/57] fix: overflow in the logarithmic binning beyond 2^31
 data points

---
 c++/triqs/stat/accumulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/stat/accumulator.hpp b/c++/triqs/stat/accumulator.hpp
index e490105..26eb155 100644
--- a/c++/triqs/stat/accumulator.hpp
+++ b/c++/triqs/stat/accumulator.hpp
@@ -195,7 +195,7 @@ namespace triqs::stat {
 
           // When reaching power of 2 nr data points, add a new pair of (Mk, Qk) = (acc.back(), 0)
           // and add an extra space in acc, acc_count
-          if (count == (1 << acc.size()) && (max_n_bins < 0 || n_bins() < max_n_bins)) {
+          if (count == (1l << acc.size()) && (max_n_bins < 0 || n_bins() < max_n_bins)) {
             T last_acc = acc.back(); // Force copy
 
             if (max_n_bins < 0 || n_bins() < (max_n_bins - 1)) {
-- 
2.43.0


From 115bd48b2a09fbfcce3880f0c020f3fab04e160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 23/57] fix: the MPI jackknife uses the total number of data
 points on every node

---
 c++/triqs/stat/jackknife.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/stat/jackknife.hpp b/c++/triqs/stat/jackknife.hpp
index ada5545..0b782e5 100644
--- a/c++/triqs/stat/jackknife.hpp
+++ b/c++/triqs/stat/jackknife.hpp
@@ -91,7 +91,7 @@ namespace triqs::stat {
       // Now the reduction over the nodes.
       long Ntot = N;
       if (c) { // MPI version
-        Ntot = mpi::reduce(N, *c);
+        Ntot = mpi::all_reduce(N, *c);
 
         M *= double(N) / Ntot; // remove the 1/N
         M = mpi::all_reduce(M, *c);
@@ -109,7 +109,7 @@ namespace triqs::stat {
 
       auto f_on_averages = make_regular(f(ja.average()...));
       auto std_err       = make_regular(std::sqrt((Ntot - 1) / double(Ntot)) * sqrt(Q));
-      auto average       = make_regular(N * (f_on_averages - M) + M);
+      auto average       = make_regular(Ntot * (f_on_averages - M) + M);
       return std::make_tuple(average, std_err, M, f_on_averages);
     }
 
-- 
2.43.0


From 9b55ff4c796732bebc5bd4ad82579e50f789dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 24/57] fix: undefined name in the error message of
 Block2Gf.copy_from

---
 python/triqs/gf/block2_gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 3c7eb05..f96a8ae 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -119,7 +119,7 @@ class Block2Gf:
         """Copy the Green's function from G2: G2 MUST have the same structure!"""
         assert isinstance(G2, Block2Gf)
         for (i,g), (i2,g2) in zip(self,G2):
-           assert g.data.shape == g2.data.shape, "Blocks %s and %s of the Green Function do have the same dimension"%(i1,i2)
+           assert g.data.shape == g2.data.shape, "Blocks %s and %s of the Green Function do have the same dimension"%(i,i2)
         for (i,g),(i2,g2) in zip(self,G2): g.copy_from(g2)
 
      #--------------  Iterators -------------------------
-- 
2.43.0


From 3a7db8db79a679c4a29c3a96d0ea20eef6819a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 25/57] fix: OneFermionInTime refers to names which no longer
 exist

---
 python/triqs/gf/descriptors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/triqs/gf/descriptors.py b/python/triqs/gf/descriptors.py
index 724ecfa..c1f7642 100644
--- a/python/triqs/gf/descriptors.py
+++ b/python/triqs/gf/descriptors.py
@@ -22,7 +22,7 @@
 r""" """
 
 from .descriptor_base import *
-from .meshes import MeshImFreq, MeshDLRImFreq, MeshReFreq
+from .meshes import MeshImFreq, MeshDLRImFreq, MeshReFreq, MeshImTime
 import warnings
                 
 #######################################
@@ -33,12 +33,12 @@ class OneFermionInTime(Base):
          
     def __call__(self,G):
         L = self.L
-        if G.mesh.TypeGF not in [GF_Type.Imaginary_Time]: 
-            raise TypeError("This initializer is only correct in frequency")
+        if type(G.mesh) != MeshImTime:
+            raise TypeError("This initializer is only correct in imaginary time")
 
         Id = 1. if len(G.target_shape) == 0 else numpy.identity(G.target_shape[0])
 
-        fact = -1/(1+exp(-L*G.beta))
+        fact = -1/(1+exp(-L*G.mesh.beta))
         Function(lambda t: fact* exp(-L*t) *Id)(G)
         return G
 
-- 
2.43.0


From c932f6a50ba397152315070a1d7c1c8ec9214a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 26/57] fix: sign of the Clebsch-Gordan coefficients

---
 python/triqs/operators/util/U_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/operators/util/U_matrix.py b/python/triqs/operators/util/U_matrix.py
index 1c2f617..2933fa2 100644
--- a/python/triqs/operators/util/U_matrix.py
+++ b/python/triqs/operators/util/U_matrix.py
@@ -624,7 +624,7 @@ def clebsch_gordan(jm1, jm2, jm3):
               Clebsh-Gordan coefficient.
 
     """
-    norm = sqrt(2*jm3[0]+1)*(-1 if jm1[0]-jm2[0]+jm3[1] % 2 else 1)
+    norm = sqrt(2*jm3[0]+1)*(-1 if (jm1[0]-jm2[0]+jm3[1]) % 2 else 1)
     return norm*three_j_symbol(jm1,jm2,(jm3[0],-jm3[1]))
 
 def subarray(a,idxlist,n=None) :
-- 
2.43.0


From 94a7130ee5863df55e1402867c8259cd83fa342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 27/57] fix: spherical_to_cubic returned the null matrix for
 l=0

---
 python/triqs/operators/util/U_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/operators/util/U_matrix.py b/python/triqs/operators/util/U_matrix.py
index 2933fa2..d9958d4 100644
--- a/python/triqs/operators/util/U_matrix.py
+++ b/python/triqs/operators/util/U_matrix.py
@@ -358,6 +358,7 @@ def spherical_to_cubic(l, convention='triqs'):
         raise ValueError("spherical_to_cubic: [wien2k, wannier90, qe] convention implemented only for l=0,1,2")
     if l == 0:
         cubic_names = ("s")
+        T[0,0] = 1.0
     elif l == 1:
         if convention == 'wannier90' or convention == 'qe':
             cubic_names = ("z","x","y")
-- 
2.43.0


From b1e33e3a0e54c78b75c8f3116af2aaa3fc027e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 28/57] fix: U_matrix_slater with only one of U_int and J_hund
 reports the missing argument

---
 python/triqs/operators/util/U_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/operators/util/U_matrix.py b/python/triqs/operators/util/U_matrix.py
index d9958d4..3efe971 100644
--- a/python/triqs/operators/util/U_matrix.py
+++ b/python/triqs/operators/util/U_matrix.py
@@ -82,7 +82,7 @@ def U_matrix_slater(l, radial_integrals=None, U_int=None, J_hund=None, basis='sp
     """
 
     # Check all necessary information is present and consistent
-    if radial_integrals is None and (U_int is None and J_hund is None):
+    if radial_integrals is None and (U_int is None or J_hund is None):
         raise ValueError("U_matrix: provide either the radial_integrals or U_int and J_hund.")
     if radial_integrals is None and (U_int is not None and J_hund is not None):
         radial_integrals = U_J_to_radial_integrals(l, U_int, J_hund)
-- 
2.43.0


From dbba15106fb0766db76a1a5a8a1c30ecacfd126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 29/57] fix: h_int_slater dumps the operators which belong to
 the indices of U and complex values

---
 python/triqs/operators/util/hamiltonians.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/operators/util/hamiltonians.py b/python/triqs/operators/util/hamiltonians.py
index d273a39..9af61cd 100644
--- a/python/triqs/operators/util/hamiltonians.py
+++ b/python/triqs/operators/util/hamiltonians.py
@@ -91,9 +91,9 @@ def h_int_slater(spin_names,n_orb,U_matrix,off_diag=None,map_operator_structure=
             if H_dump and not H_term.is_zero():
                 H_dump_file.write('%s'%(mkind(s1,a1),) + '\t')
                 H_dump_file.write('%s'%(mkind(s2,a2),) + '\t')
-                H_dump_file.write('%s'%(mkind(s2,a3),) + '\t')
-                H_dump_file.write('%s'%(mkind(s1,a4),) + '\t')
-                H_dump_file.write(str(U_val.real) + '\n')
+                H_dump_file.write('%s'%(mkind(s1,a3),) + '\t')
+                H_dump_file.write('%s'%(mkind(s2,a4),) + '\t')
+                H_dump_file.write(str(U_val if complex else U_val.real) + '\n')
 
     return H
 
-- 
2.43.0


From ac00d9dc52f827d0a8cdd5345cdeb4ce98c74614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 30/57] fix: h_int_kanamori dumps the pair-hopping terms with
 their sign

---
 python/triqs/operators/util/hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/operators/util/hamiltonians.py b/python/triqs/operators/util/hamiltonians.py
index 9af61cd..3745fd0 100644
--- a/python/triqs/operators/util/hamiltonians.py
+++ b/python/triqs/operators/util/hamiltonians.py
@@ -194,7 +194,7 @@ def h_int_kanamori(spin_names,n_orb,U,Uprime,J_hund,off_diag=None,map_operator_s
             if H_dump and not H_term.is_zero():
                 H_dump_file.write('%s'%(mkind(s1,a1),) + '\t')
                 H_dump_file.write('%s'%(mkind(s2,a2),) + '\t')
-                H_dump_file.write(str(-J_hund) + '\n')
+                H_dump_file.write(str(J_hund) + '\n')
 
     return H
 
-- 
2.43.0


From 778eb771d22453ece455eefc3a78c350b3f61ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 31/57] fix: DOS.density vanishes for a chemical potential
 below the band

---
 python/triqs/dos/dos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/dos/dos.py b/python/triqs/dos/dos.py
index 3570c17..cfc702c 100644
--- a/python/triqs/dos/dos.py
+++ b/python/triqs/dos/dos.py
@@ -96,6 +96,7 @@ name : string
             ind = a.index(True)
         except:
             ind = self.eps.shape[0]
+        if ind == 0: return 0.0 # mu is below the band
 
         de = self.eps[1]-self.eps[0]
         #for e,r in itertools.izip(self.eps[0:ind],self.rho[0:ind]):
-- 
2.43.0


From 5213cd421cb260e0f238d528ee38163721699773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 32/57] fix: HilbertTransform can be pickled

---
 python/triqs/dos/hilbert_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index 0ea741d..357db79 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -46,7 +46,7 @@ class HilbertTransform:
     #-------------------------------------------------------------
 
     def __reduce__(self):
-        return self.__class__, (self.rho)
+        return self.__class__, (self.dos,)
 
     #-------------------------------------------------------------
 
-- 
2.43.0


From f0bd4ca594580d766dba296aa004bb2d506e3725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 33/57] fix: inspect.getargspec is gone from Python 3.11

---
 python/triqs/dos/hilbert_transform.py | 2 +-
 python/triqs/fit/fit.py               | 2 +-
 python/triqs/sumk/sumk_discrete.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index 357db79..8eeca76 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -101,7 +101,7 @@ class HilbertTransform:
         # case 2) Sigma is a function returning a Gf
         else:
             assert callable(Sigma), "If Sigma is not a Gf it must be a function"
-            assert len(inspect.getargspec(Sigma)[0]) == 1, "Sigma must be a function of a single variable"
+            assert len(inspect.getfullargspec(Sigma)[0]) == 1, "Sigma must be a function of a single variable"
             model = Sigma(self.dos.eps[0])
             Sigma_fnt = True
 
diff --git a/python/triqs/fit/fit.py b/python/triqs/fit/fit.py
index 8e3f17e..ebcb3dd 100644
--- a/python/triqs/fit/fit.py
+++ b/python/triqs/fit/fit.py
@@ -48,7 +48,7 @@ class Fit:
 
         """
         self.function, self.fname, p00 = fitter
-        assert len(ins.getargspec(self.function)[0])== len(p00) + 1, "error in number of parameters"
+        assert len(ins.getfullargspec(self.function)[0])== len(p00) + 1, "error in number of parameters"
         assert len(y_array) == len(x_array)
         assert len(y_array) > len (p00)
         errfunc = lambda x :  np.abs ( self.function(x_array,*x)  - y_array[:])
diff --git a/python/triqs/sumk/sumk_discrete.py b/python/triqs/sumk/sumk_discrete.py
index 62465f5..a20d036 100644
--- a/python/triqs/sumk/sumk_discrete.py
+++ b/python/triqs/sumk/sumk_discrete.py
@@ -115,7 +115,7 @@ class SumkDiscrete:
         # case 2) Sigma is a function returning a BlockGf
         else:
             assert callable(Sigma), "If Sigma is not a BlockGf it must be a function"
-            Sigma_Nargs = len(inspect.getargspec(Sigma)[0])
+            Sigma_Nargs = len(inspect.getfullargspec(Sigma)[0])
             assert Sigma_Nargs <= 2, "Sigma must be a function of k or of k and epsilon"
             if Sigma_Nargs == 1:
                 model = Sigma(self.bz_points[0])
-- 
2.43.0


From 51b61b0764b6db3adb772d539dc5947442748538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 34/57] fix: optional arrays are compared with None by identity

---
 python/triqs/dos/hilbert_transform.py | 4 ++--
 python/triqs/fit/fit.py               | 2 +-
 python/triqs/sumk/sumk_discrete.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index 8eeca76..4fc3b8f 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -117,7 +117,7 @@ class HilbertTransform:
 
         if not(isinstance(self.dos, DOSFromFunction)):
             assert n_points_integral==None and test_convergence == None, " Those parameters can only be used with an dos_from_function"
-        if field !=None:
+        if field is not None:
             try:
                 result += field
             except:
@@ -138,7 +138,7 @@ class HilbertTransform:
             tmp << iOmega_n + mu + eta * 1j
             if not(Sigma_fnt):
                 tmp -= Sigma
-            if field != None: tmp -= field
+            if field is not None: tmp -= field
 
             # I slice all the arrays on the node. Cf reduce operation below.
             for d, e_h, e in zip(*[mpi.slice_array(A) for A in [self.rho_for_sum, eps_hat, self.dos.eps]]):
diff --git a/python/triqs/fit/fit.py b/python/triqs/fit/fit.py
index ebcb3dd..7f75e95 100644
--- a/python/triqs/fit/fit.py
+++ b/python/triqs/fit/fit.py
@@ -52,7 +52,7 @@ class Fit:
         assert len(y_array) == len(x_array)
         assert len(y_array) > len (p00)
         errfunc = lambda x :  np.abs ( self.function(x_array,*x)  - y_array[:])
-        self.param, success = leastsq(errfunc, p0 if p0 else p00 )
+        self.param, success = leastsq(errfunc, p0 if p0 is not None else p00 )
 
     def __str__ (self) : return (self.fname%tuple(self.param) or 'Fit').replace("+ -","-")
     def __repr__ (self) : return str(self)
diff --git a/python/triqs/sumk/sumk_discrete.py b/python/triqs/sumk/sumk_discrete.py
index a20d036..77bde7e 100644
--- a/python/triqs/sumk/sumk_discrete.py
+++ b/python/triqs/sumk/sumk_discrete.py
@@ -142,7 +142,7 @@ class SumkDiscrete:
         tmp,tmp2 = G.copy(),G.copy()
         mupat = mu * numpy.identity(no, numpy.complex_)
         tmp << iOmega_n
-        if field != None: tmp -= field
+        if field is not None: tmp -= field
         if not Sigma_fnt: tmp -= Sigma  # substract Sigma once for all
 
         # Loop on k points...
-- 
2.43.0


From d4a146aa108863a9c72e7c95b57f91e94fa9f29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 35/57] fix: refinement of the grid of a DOSFromFunction in the
 Hilbert transform

---
 python/triqs/dos/hilbert_transform.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index 4fc3b8f..b6ace79 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -168,21 +168,21 @@ class HilbertTransform:
             if not(n_points_integral): # if not defined, use the defaults given at construction of the dos
                 n_points_integral=  len(self.dos.eps)
             else:
-                self.dos._DOS__f(n_points_integral)
+                self.dos._DOSFromFunction__f(n_points_integral)
                 self.__normalize()
 
             HT(result)
 
-            nloop, test = 1, 0
-            while test_convergence and nloop < 10 and (nloop == 1 or test > test_convergence):
-                if nloop>1:
-                    self.dos._DOS__f(n_points_integral)
-                    self.__normalize()
+            nloop, converged = 1, False
+            while test_convergence and nloop < 10 and not converged:
+                n_points_integral *= 2
+                self.dos._DOSFromFunction__f(n_points_integral)
+                self.__normalize()
 
                 result_old = result.copy()
-                result = DOS.HilbertTransform(self, Sigma, mu, eta, epsilon_hat, result)
-                test = test_distance(result, result_old, test_convergence)
-                n_points_integral *=2
+                HT(result)
+                converged = test_distance(result, result_old, test_convergence)
+                nloop += 1
 
         else:  # Ordinary DOS
             HT(result)
-- 
2.43.0


From d3cd34b6988d38d01a9d81b85c299f47f9d9c4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 36/57] fix: shift of the k points of SumkDiscreteFromLattice
 by Q

---
 python/triqs/sumk/sumk_discrete_from_lattice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/sumk/sumk_discrete_from_lattice.py b/python/triqs/sumk/sumk_discrete_from_lattice.py
index 3741593..a3904bc 100644
--- a/python/triqs/sumk/sumk_discrete_from_lattice.py
+++ b/python/triqs/sumk/sumk_discrete_from_lattice.py
@@ -111,13 +111,13 @@ class SumkDiscreteFromLattice (SumkDiscrete):
             raise IndexError("Summation method unknown")
 
         # A shift
-        if Q:
+        if Q is not None:
             try:
                 Q = np.array(Q)
                 assert len(Q.shape) ==1
             except:
                 raise RuntimeError("Q is not of correct type")
-            for k_index in range(self.N_kpts()):
+            for k_index in range(self.n_kpts()):
                 self.bz_points[k_index,:] +=Q
 
         # Compute the discretized hoppings from the Superlattice
@@ -129,7 +129,7 @@ class SumkDiscreteFromLattice (SumkDiscrete):
             assert 0 , "not checked"
             self.overlap[:,:,:] = self.SL.Overlap(bz_points.transpose().copy())
             mupat = np.identity(self.SL.n_orbitals)
-            for k_index in range(self.N_kpts()):
+            for k_index in range(self.n_kpts()):
                 self.mu_pattern[:,:,k_index] = np.dot( mupat ,self.Overlap[:,:,k_index])
 
     #-------------------------------------------------------------
-- 
2.43.0


From c303517e0716d83c2e4d7e6c3ae805254f2f5451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 37/57] fix: pickled SumkDiscreteFromLattice keeps its number
 of points per direction

---
 python/triqs/sumk/sumk_discrete_from_lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/triqs/sumk/sumk_discrete_from_lattice.py b/python/triqs/sumk/sumk_discrete_from_lattice.py
index a3904bc..0ee31af 100644
--- a/python/triqs/sumk/sumk_discrete_from_lattice.py
+++ b/python/triqs/sumk/sumk_discrete_from_lattice.py
@@ -53,7 +53,7 @@ class SumkDiscreteFromLattice (SumkDiscrete):
      #-------------------------------------------------------------
 
     def __reduce__(self):
-        return self.__class__,  (self.SL, self.patch, self.bz_weights.shape[0],self.method)
+        return self.__class__,  (self.SL, self.patch, self.n_points, self.method)
 
      #-------------------------------------------------------------
 
@@ -67,6 +67,7 @@ class SumkDiscreteFromLattice (SumkDiscrete):
         """
         assert method in ["Riemann","Gauss"], "method %s is not recognized"%method
         self.method = method
+        self.n_points = n_points
         self.resize_arrays(n_points)
         if self.patch:
             self.__Compute_Grid_One_patch(self.patch, n_points , method, Q)
-- 
2.43.0


From c4132cae51998f49aaf100895a61141a95dbd466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 38/57] fix: SumkDiscreteFromLattice on a patch of the
 Brillouin zone

---
 python/triqs/sumk/sumk_discrete_from_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/sumk/sumk_discrete_from_lattice.py b/python/triqs/sumk/sumk_discrete_from_lattice.py
index 0ee31af..30625af 100644
--- a/python/triqs/sumk/sumk_discrete_from_lattice.py
+++ b/python/triqs/sumk/sumk_discrete_from_lattice.py
@@ -142,7 +142,7 @@ class SumkDiscreteFromLattice (SumkDiscrete):
         """
 
         tritemp = np.array(patch._triangles)
-        ntri = len(tritemp)/3
+        ntri = len(tritemp)//3
         nk = n_bz*n_bz*ntri
         self.resize_arrays(nk)
 
@@ -173,6 +173,6 @@ class SumkDiscreteFromLattice (SumkDiscrete):
         self.hopping[:,:,:] = self.SL.fourier(self.bz_points)
 
         if self.orthogonal_basis:
-            self.mu_pattern[:,:] =  self.SL.MuPattern[:,:]
+            self.mu_pattern[:,:] = np.identity(self.SL.n_orbitals)
         else:
             assert 0 , "not checked"
-- 
2.43.0


From f6a47ecc76b246fa7885bb987bcca3faccb3a189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 39/57] fix: TBSuperLattice accepts cluster sites given as
 tuples or as an array

---
 python/triqs/lattice/super_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 1b36e90..ea5db69 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -67,8 +67,8 @@ class TBSuperLattice(TBLattice):
         self.Norb = tb_lattice.n_orbitals * Ncluster_sites
 
         # cluster_sites computation
-        if cluster_sites!=None:
-            self.__cluster_sites = list(cluster_sites)[:]
+        if cluster_sites is not None:
+            self.__cluster_sites = [list(site) for site in cluster_sites]
         else: # Computes the position of the cluster automatically
             self.__cluster_sites = []
             #We tile the super-cell with the tb_lattice points and retains
-- 
2.43.0


From fa2b3c8660673a7514b18b9fb0f19e0f7946d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 40/57] fix: removal of the internal hoppings of a
 TBSuperLattice

---
 python/triqs/lattice/super_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index ea5db69..44df05f 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -134,7 +134,7 @@ class TBSuperLattice(TBLattice):
             for disp, t in list(D1.items()):
                 R, alpha = self.change_coordinates_L_to_SL(numpy.array(CS)+numpy.array(disp))
                 if R not in Res: Res[R] = create_zero() if create_zero else numpy.zeros((self.Norb, self.Norb), dtype = type(t[0,0]))
-                if not(remove_internal) or R!= self.tb_lattice.ndim*(0, ):
+                if not(remove_internal) or R!= self.__BaseLattice.ndim*(0, ):
                     for orb1 in range(norb):
                         for orb2 in range(norb):
                             Res[R][pack(nsite, orb1), pack(alpha, orb2)] += t[orb1, orb2]
-- 
2.43.0


From 9335f1b192b24ccadc366707493b551d3b8e65fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 41/57] fix: TBSuperLattice.change_coordinates_SL_to_L indexed
 a list with a pair

---
 python/triqs/lattice/super_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 44df05f..ac7a447 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -142,7 +142,7 @@ class TBSuperLattice(TBLattice):
 
     def change_coordinates_SL_to_L(self, R , alpha):
         """Given a point in the supercell R, site (number) alpha, it computes its position on the tb_lattice in lattice coordinates"""
-        return numpy.dot (self._M, numpy.array(R)) + self.__cluster_sites[alpha,:]
+        return numpy.dot (self._M, numpy.array(R)) + self.__cluster_sites[alpha]
 
     def change_coordinates_L_to_SL(self, x):
         """Given a point on the tb_lattice in lattice coordinates, returns its coordinates (R, alpha) in the Superlattice"""
-- 
2.43.0


From ff9de25866790627eeca6d48e63d2e5644308896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 42/57] fix: TBSuperLattice can be pickled

---
 python/triqs/lattice/super_lattice.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index ac7a447..614f5ff 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -116,10 +116,8 @@ class TBSuperLattice(TBLattice):
         assert self.Norb == self.n_orbitals
 
 
-    __HDF_reduction__ = ['__BaseLattice', '__super_lattice_units', '__cluster_sites', '__remove_internal_hoppings']
-
     def __reduce__ (self):
-        return tuple([getattr(self, x) for x in self.__HDF_reduction__])
+        return self.__class__, (self.__BaseLattice, self.__super_lattice_units, self.__cluster_sites, self.__remove_internal_hoppings)
 
     def fold(self, D1, remove_internal=False, create_zero = None):
         """ Input: a function  r-> f(r) on the tb_lattice given as a dictionnary
-- 
2.43.0


From 99663e7ef1a7289a13ad912c87d4053f3de9fb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 43/57] fix: h5diff compares arrays with the precision given

---
 python/triqs/utility/h5diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/utility/h5diff.py b/python/triqs/utility/h5diff.py
index 6f451ae..23a61f4 100644
--- a/python/triqs/utility/h5diff.py
+++ b/python/triqs/utility/h5diff.py
@@ -62,10 +62,10 @@ def compare(key, a, b, level, precision):
 
         # ... until here
         elif isinstance(a, numpy.ndarray):
-            assert_arrays_are_close(a,b)
+            assert_arrays_are_close(a,b,precision)
 
         elif t in [int, float, complex]:
-            assert abs(a-b) < 1.e-10, " a-b = %"%(a-b)
+            assert abs(a-b) < 1.e-10, " a-b = %s"%(a-b)
 
         elif t in [bool, numpy.bool_]:
            assert a==b
-- 
2.43.0


From 14949a74510e7ab89ac3bf6191e5a8b831965ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 44/57] fix: h5diff does not report the failures of an earlier
 call

---
 python/triqs/utility/h5diff.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/utility/h5diff.py b/python/triqs/utility/h5diff.py
index 23a61f4..b5b8a2e 100644
--- a/python/triqs/utility/h5diff.py
+++ b/python/triqs/utility/h5diff.py
@@ -87,6 +87,7 @@ def compare(key, a, b, level, precision):
         failures.append("Comparison of key '%s'  has failed:\n """%key + mess)
 
 def h5diff(f1, f2, precision= 1.e-6):
+    failures.clear()
     compare('', HDFArchive(f1,'r'), HDFArchive(f2,'r'), 0, precision)
     if failures :
         print ('-'*50, file=sys.stderr )
-- 
2.43.0


From dde91e4a8ee88d92e909725d02cbd2936444fab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 45/57] fix: Green functions of different target shapes are not
 close

---
 python/triqs/utility/comparison_tests.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/utility/comparison_tests.py b/python/triqs/utility/comparison_tests.py
index 54f46bb..5b2e5f7 100644
--- a/python/triqs/utility/comparison_tests.py
+++ b/python/triqs/utility/comparison_tests.py
@@ -29,6 +29,7 @@ def assert_array_close_to_scalar(a, x, precision = 1.e-6):
 def assert_gfs_are_close(a, b, precision = 1.e-6):
     assert type(a.mesh) == type(b.mesh), "GFs have different type of meshes !"
     assert a.mesh == b.mesh, "meshes are different"
+    assert a.data.shape == b.data.shape, "target shapes are different"
     assert_arrays_are_close(a.data, b.data, precision)
 
 def assert_block_gfs_are_close(a, b, precision = 1.e-6):
-- 
2.43.0


From 71a28d2f6877fcdacb469902e965ad8c85c83468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 46/57] fix: redirected output was dropped as bytes

---
 python/triqs/utility/redirect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/utility/redirect.py b/python/triqs/utility/redirect.py
index 8409818..8777f2b 100644
--- a/python/triqs/utility/redirect.py
+++ b/python/triqs/utility/redirect.py
@@ -50,7 +50,7 @@ class T(threading.Thread):
       try:
         # read out the pipe and write it to the screen
         # if the pipe was empty it return an error (hence the try-except)
-        sys.stdout.write(os.read(piper, 10000))
+        sys.stdout.write(os.read(piper, 10000).decode(errors='replace'))
         sys.stdout.flush()
       except:
         pass
-- 
2.43.0


From e47c5a3cdfe3abe1cb3c4b595ea86be1f77758fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 47/57] fix: send and recv of the serial mpi module

---
 python/triqs/utility/mpi_nompi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/triqs/utility/mpi_nompi.py b/python/triqs/utility/mpi_nompi.py
index bc12256..2ce9570 100644
--- a/python/triqs/utility/mpi_nompi.py
+++ b/python/triqs/utility/mpi_nompi.py
@@ -60,10 +60,12 @@ def all_reduce(x, comm=world, op=lambda x, y: x + y):
     return x
 
 def send(val, dest):
+    global _sendval
     _sendval = val
     return
 
 def recv(source = 0):
+    global _sendval
     if _sendval is None:
         raise Exception('send val not set')
     recval = _sendval
-- 
2.43.0


From b3913cbe9395c1fc6f823de5a67b4a52a7d1eabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 48/57] fix: the serial mpi module provides master, slice_inf
 and slice_sup

---
 python/triqs/utility/mpi_nompi.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/triqs/utility/mpi_nompi.py b/python/triqs/utility/mpi_nompi.py
index 2ce9570..e6d63df 100644
--- a/python/triqs/utility/mpi_nompi.py
+++ b/python/triqs/utility/mpi_nompi.py
@@ -26,6 +26,7 @@ myprint_out = lambda x : sys.stdout.write("%s\n"%x)
 world = None
 rank = 0
 size = 1
+master = 0
 
 All_Nodes_report = False
 
@@ -72,6 +73,10 @@ def recv(source = 0):
     _sendval = None
     return recval
 
+def slice_inf(imin,imax) : return imin
+
+def slice_sup(imin,imax) : return imax
+
 def slice_array(A) :
     """Given an array A, it returns a VIEW of a slice over the first dim on the node"""
     return A
-- 
2.43.0


From 5e1e0d67534fdc94e5d759cc44c66fc881be2f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 49/57] fix: master_gets_host_names unpacked the host name

---
 python/triqs/utility/mpi_mpi4py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/utility/mpi_mpi4py.py b/python/triqs/utility/mpi_mpi4py.py
index 0e3e787..c87c714 100644
--- a/python/triqs/utility/mpi_mpi4py.py
+++ b/python/triqs/utility/mpi_mpi4py.py
@@ -118,7 +118,7 @@ def master_gets_host_names():
     HostNames[rank] = gethostname()
     if is_master_node() :
       for proc in range (1,size) :
-        HostNames[proc],status = recv(proc)
+        HostNames[proc] = recv(proc)
     else:
       send(gethostname(),master)
     barrier()
-- 
2.43.0


From f08be52da2bec4ebfa256c9d8a43d9e46fcbaa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 50/57] fix: DistributionOnNodesOneStack leaves the list of its
 caller unchanged

---
 python/triqs/utility/dist_on_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/utility/dist_on_nodes.py b/python/triqs/utility/dist_on_nodes.py
index aee979c..b8d528b 100644
--- a/python/triqs/utility/dist_on_nodes.py
+++ b/python/triqs/utility/dist_on_nodes.py
@@ -118,7 +118,7 @@ class DistributionOnNodesOneStack(DistributionOnNodes) :
     Reimplement just the_function
     """
     def __init__(self,the_stack) :
-        self.__l = the_stack
+        self.__l = list(the_stack)
         self.__l.reverse()
         self.__result = []
         
-- 
2.43.0


From 2198d5b0899477d9f6e1a49682d557ee1dea0543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 51/57] fix: results of the child process of
 DistributionOnNodes

---
 python/triqs/utility/dist_on_nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/utility/dist_on_nodes.py b/python/triqs/utility/dist_on_nodes.py
index b8d528b..667c66a 100644
--- a/python/triqs/utility/dist_on_nodes.py
+++ b/python/triqs/utility/dist_on_nodes.py
@@ -82,9 +82,9 @@ class DistributionOnNodes:
                       node_stopped[node] = True
 
               # Look if the child process on the master has self.finished.
-              if not(pid) or os.waitpid(pid,os.WNOHANG) :
+              if not(pid) or os.waitpid(pid,os.WNOHANG)[0] :
                   if pid :
-                      RR = pickle.load(open("res_master",'r'))
+                      RR = pickle.load(open("res_master",'rb'))
                       if RR != None : self.treate(*RR)
                   if not(self.finished()) :
                       pid=os.fork();
@@ -94,7 +94,7 @@ class DistributionOnNodes:
                               res = self.the_function(currently_calculated_by_master)
                           else:
                               res = None
-                          pickle.dump((res,mpi.rank),open('res_master','w'))
+                          pickle.dump((res,mpi.rank),open('res_master','wb'))
                           os._exit(0) # Cf python doc. Used for child only.
                   else : pid=0
               if (pid): time.sleep(self.SleepTime) # so that most of the time is for the actual calculation on the master
-- 
2.43.0


From 35066dd2dfd48c31ba7002bb6f06496b9d84a7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:54 +0000
Subject: [PATCH 52/57] fix: h5diff reports groups with different keys instead
 of stopping with a KeyError

---
 python/triqs/utility/h5diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/utility/h5diff.py b/python/triqs/utility/h5diff.py
index b5b8a2e..36c3b65 100644
--- a/python/triqs/utility/h5diff.py
+++ b/python/triqs/utility/h5diff.py
@@ -39,7 +39,7 @@ def compare(key, a, b, level, precision):
         if t == dict or isinstance(a, HDFArchiveGroup) :
             if list(a.keys()) != list(b.keys()):
                 failures.append("Two archive groups '%s' with different keys \n %s \n vs\n %s"%(key,list(a.keys()), list(b.keys())))
-            for k in a.keys():
+            for k in [k for k in a.keys() if k in b.keys()]:
                 compare(key + '/'+ k, a[k], b[k], level + 1, precision)
 
         # The TRIQS object which are comparable starts here ....
-- 
2.43.0


From 94c0a6e75abf0c5bfc985492f611670930ea8e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:19 +0000
Subject: [PATCH 53/57] fix: plotting a block Green's function with a name no
 longer renames it

---
 python/triqs/gf/block2_gf.py | 2 +-
 python/triqs/gf/block_gf.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index f96a8ae..4b43f87 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -329,7 +329,7 @@ class Block2Gf:
         for bn, g in self:
             initial_dict = opt_dict.copy()
             r += g._plot_(initial_dict)
-        self.name, name_kept = self.name, opt_dict.pop('name', self.name)
+        self.name, name_kept = opt_dict.pop('name', self.name), self.name
         first_g_name = self._first().name
         ylabel = r[0]['ylabel'].replace(first_g_name, self.name) if first_g_name else self.name
         for dic in r:
diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index 459f953..d1383d8 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -387,7 +387,7 @@ class BlockGf:
         for sig,g in self:
             initial_dict = opt_dict.copy()
             r += g._plot_(initial_dict)
-        self.name, name_kept = self.name, opt_dict.pop('name', self.name)
+        self.name, name_kept = opt_dict.pop('name', self.name), self.name
         first_g_name = self.__GFlist[0].name
         ylabel = r[0]['ylabel'].replace(first_g_name, self.name) if first_g_name else self.name
         for dic in r:
-- 
2.43.0


From cd1a9476d8be39965a1959cc5ae5ec19a397f3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:29 +0000
Subject: [PATCH 54/57] fix: text of lazy expressions with function nodes and
 nested differences or quotients

---
 python/triqs/gf/lazy_expressions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/triqs/gf/lazy_expressions.py b/python/triqs/gf/lazy_expressions.py
index 5122150..22be8be 100644
--- a/python/triqs/gf/lazy_expressions.py
+++ b/python/triqs/gf/lazy_expressions.py
@@ -75,12 +75,13 @@ class LazyExpr (__aux):
         return self.childs[0] if self.tag == "T" else None
 
     def __aux_print(self, F):
-        op_priority = {'T': 100, "+": 1 , '-': 1, '*': 2, '/': 2}
+        op_priority = {'T': 100, 'F': 100, "+": 1 , '-': 1, '*': 2, '/': 2}
         if self.tag == "T":  return F(self.childs[0])
         if self.tag == "F":
-            return reduce (lambda s, e: s+ F(e), self.childs[1:], self.childs[0].get_terminal()[0] + "(" ) + ')'
-        par = lambda op, e: "%s"%e if op_priority[e.tag] >= op_priority[op] else "(%s)"%e
-        return "%s %s %s "%(par(self.tag , self.childs[0]), self.tag , par(self.tag , self.childs[1]))
+            return self.childs[0].get_terminal()[0] + "(" + ', '.join(F(e) for e in self.childs[1:]) + ')'
+        par = lambda p, e: "%s"%e if op_priority[e.tag] >= p else "(%s)"%e
+        p = op_priority[self.tag]
+        return "%s %s %s "%(par(p, self.childs[0]), self.tag , par(p if self.tag in '+*' else p + 1, self.childs[1]))
 
     def __str__(self): return self.__aux_print(str)
     def __repr__(self): return self.__aux_print(repr)
-- 
2.43.0


From 0cc61d10cc4737667fa77f5c6bd58ded56f06c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:17 +0000
Subject: [PATCH 55/57] fix: points equal to zero are computed by the child
 process of DistributionOnNodes, None is never treated as a result

---
 python/triqs/utility/dist_on_nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/utility/dist_on_nodes.py b/python/triqs/utility/dist_on_nodes.py
index 667c66a..29e4486 100644
--- a/python/triqs/utility/dist_on_nodes.py
+++ b/python/triqs/utility/dist_on_nodes.py
@@ -66,7 +66,7 @@ class DistributionOnNodes:
                   T = r.test()
                   if T is None :  return True
                   value = T[0]
-                  if value !=None : self.treate(*value)
+                  if value[0] is not None : self.treate(*value)
                   node_running[T[1].source] = False
                   return False
               RequestList = list(filter(keep_request,RequestList))
@@ -85,12 +85,12 @@ class DistributionOnNodes:
               if not(pid) or os.waitpid(pid,os.WNOHANG)[0] :
                   if pid :
                       RR = pickle.load(open("res_master",'rb'))
-                      if RR != None : self.treate(*RR)
+                      if RR[0] is not None : self.treate(*RR)
                   if not(self.finished()) :
                       pid=os.fork();
                       currently_calculated_by_master = next(self)
                       if pid==0 :  # we are on the child
-                          if currently_calculated_by_master :
+                          if currently_calculated_by_master is not None :
                               res = self.the_function(currently_calculated_by_master)
                           else:
                               res = None
-- 
2.43.0


From 91849553c01b63cea55c19cb95ec6ccd50ad9ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:38 +0000
Subject: [PATCH 56/57] fix: the grid of a patch of the Brillouin zone is
 shifted by Q

---
 python/triqs/sumk/sumk_discrete_from_lattice.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/triqs/sumk/sumk_discrete_from_lattice.py b/python/triqs/sumk/sumk_discrete_from_lattice.py
index 30625af..564b28b 100644
--- a/python/triqs/sumk/sumk_discrete_from_lattice.py
+++ b/python/triqs/sumk/sumk_discrete_from_lattice.py
@@ -169,6 +169,9 @@ class SumkDiscreteFromLattice (SumkDiscrete):
         # Normalize weights so that they sum up to 1
         self.bz_weights /= total_weight
 
+        # A shift
+        if Q is not None: self.bz_points += np.array(Q)
+
         # Compute the discretized hoppings from the Superlattice
         self.hopping[:,:,:] = self.SL.fourier(self.bz_points)
 
-- 
2.43.0


From cc6940a062268b9fa92a30e35f550e765be841fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:56 +0000
Subject: [PATCH 57/57] fix: an initialiser built from a BlockGf can be applied
 more than once

---
 python/triqs/gf/descriptor_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/descriptor_base.py b/python/triqs/gf/descriptor_base.py
index 9129d58..3e2c7ad 100644
--- a/python/triqs/gf/descriptor_base.py
+++ b/python/triqs/gf/descriptor_base.py
@@ -72,13 +72,13 @@ class BaseBlock(Base):
     def __init__ (self, G, *args, **kw):
         Base.__init__(self, G = G)
         if self.is_block_descriptor():
-            self.descriptor_iter = (self.__class__(g, *args, **kw) for i,g in G)
+            self.descriptors = [self.__class__(g, *args, **kw) for i,g in G]
 
     def is_block_descriptor(self):
         return self.G.__class__.__name__ == 'BlockGf'
 
     def __iter__ (self):
-        return self.descriptor_iter
+        return iter(self.descriptors)
                 
 #########################################################################
 
-- 
2.43.0

