From 0b46db424c2da1c390beaf0b374b640a5425fed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 01/50] fix: multiply the Psi cores of a sketch by the scalar

SketchContainer.__mul__ iterated over the name it was defining, so scaling,
negating or dividing a SketchedTensorTrain raised UnboundLocalError.
---
 tt_sketch/sketch_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch_container.py b/tt_sketch/sketch_container.py
index fed61f3..9bc3c89 100644
--- a/tt_sketch/sketch_container.py
+++ b/tt_sketch/sketch_container.py
@@ -75,7 +75,7 @@ class SketchContainer:
         return self.__class__(Psi_cores_new, Omega_mats_new)
 
     def __mul__(self, other: float) -> SketchContainer:
-        new_Psi_cores = [Psi * other for Psi in new_Psi_cores]
+        new_Psi_cores = [Psi * other for Psi in self.Psi_cores]
         new_Omega_mats = [Omega * other for Omega in self.Omega_mats]
         return self.__class__(new_Psi_cores, new_Omega_mats)
 
-- 
2.43.0


From 78514b85f2905d3b8e49e3f60541035c4fbd9a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 02/50] fix: svdvals of a tensor train with an oversized rank

With r[mu-1] > n[mu] * r[mu] the full U did not match diag(S) and svdvals
raised ValueError.
---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 75fb187..c351750 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -499,7 +499,7 @@ class TensorTrain(Tensor):
             else:
                 C_mat = C.reshape(C.shape[0] * C.shape[1], C.shape[2])
 
-            U, S, _ = np.linalg.svd(C_mat)
+            U, S, _ = np.linalg.svd(C_mat, full_matrices=False)
             svdvals.append(S)
         svdvals = svdvals[::-1]
         return svdvals
-- 
2.43.0


From 3157e6c64ab6b792454b185690fb9c5638e08dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 03/50] fix: do not overflow the linear index of lazy DRMs

The running product of the dimensions was a 32-bit int, so for tensors with
more than 2**31 positions distinct positions shared the same random entries
(shape (65536, 65536, n): the third index was ignored).
---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index a80f2d4..3217552 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -62,7 +62,7 @@ cpdef double[:] _inds_to_rand_double(
     cdef int n_dim = len(shape)
     cdef int rank = rank_max - rank_min
 
-    cdef int prod = shape[0]
+    cdef uint64 prod = shape[0]
     cdef int i
     cdef int j
     for i in range(1,n_dim):
-- 
2.43.0


From c2910dacbf9482be71ad767555ac22382bc79181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 04/50] fix: make CPTensor.size a property, as for every other
 tensor

TensorSum.size raised TypeError when a summand was a CPTensor.
---
 tt_sketch/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index c351750..14ad90a 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -685,6 +685,7 @@ class CPTensor(Tensor):
         self.rank = cores[0].shape[1]
         self.shape = tuple(C.shape[0] for C in cores)
 
+    @property
     def size(self) -> int:
         return sum(C.size for C in self.cores)
 
-- 
2.43.0


From 30b7a7d5b12286e386fefb3b87fd54157665178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 05/50] fix: multiplying an MPO by a scalar no longer changes
 the MPO itself

---
 tt_sketch/tt_gmres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index f02ae69..d209ad5 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -129,7 +129,7 @@ class MPO(Tensor, TTLinearMap):
         return cls(cores)
 
     def __mul__(self, other: float) -> MPO:
-        new_cores = self.cores
+        new_cores = list(self.cores)
         new_cores[0] = new_cores[0] * other
         return self.__class__(new_cores)
 
-- 
2.43.0


From 071f212ac52b0710fe78e5465e15224cff05b3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 06/50] fix: power_decay_tensor raised NameError (SeedSequence
 was never imported)

---
 tt_sketch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 22d33a7..95d5d9e 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -46,7 +46,7 @@ def power_decay_tensor(
     unfolding decay with a power law."""
     # if seed is not None:
     #     np.random.seed(np.mod(seed, 2**32 - 1))
-    seq = SeedSequence(seed)
+    seq = np.random.SeedSequence(seed)
     A_seed = seq.generate_state(1)[0]
     A = random_normal(shape=shape, seed=A_seed)
     for mode in range(len(A.shape)):
-- 
2.43.0


From 894cb0eeba7822951cb191b97cee7fce57685c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 07/50] fix: sqrt_tensor returned its first two dimensions
 swapped

---
 tt_sketch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 95d5d9e..f12de64 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -33,7 +33,7 @@ def sqrt_tensor(shape: Tuple[int, ...], a=-0.2, b=2) -> npt.NDArray:
         return np.sqrt(np.abs(np.sum(X, axis=0)))
 
     vals = [np.linspace(a, b, s) for s in shape]
-    grid = np.stack(np.meshgrid(*vals))
+    grid = np.stack(np.meshgrid(*vals, indexing="ij"))
     X = sqrt_sum(grid)
     X /= np.linalg.norm(X)
     return X
-- 
2.43.0


From 74d34d6065d75544df66b9825611dbadb259f586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 08/50] fix: hmt_sketch(return_drm=True) raised NameError

---
 tt_sketch/sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index 4a79abf..b6c4fd2 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -73,7 +73,7 @@ def hmt_sketch(
 
     sketched = TensorTrain(sketch.Psi_cores)
     if return_drm:  # this really is mostly for testing purposes
-        return sketched, drm, right_drm  # type: ignore
+        return sketched, drm  # type: ignore
     else:
         return sketched
 
-- 
2.43.0


From fcebe723d3db11e0e1ecd85ddef3316cbf1a1037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 09/50] fix: sketch dense tensors with the same right DRM as
 other formats

A right DRM sketches the transpose of a tensor, so its columns are ordered with
the modes reversed, but the dense sketch paired them with the modes in the
original order. With 3 or more modes the sketch of a DenseTensor hence differed
from that of the same tensor in another format, and sums of dense and other
tensors were not sketched with one right DRM.
---
 tt_sketch/sketching_methods/dense_sketch.py |  7 ++++---
 tt_sketch/utils.py                          | 10 ++++++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/tt_sketch/sketching_methods/dense_sketch.py b/tt_sketch/sketching_methods/dense_sketch.py
index 7d04138..18b21e6 100644
--- a/tt_sketch/sketching_methods/dense_sketch.py
+++ b/tt_sketch/sketching_methods/dense_sketch.py
@@ -1,7 +1,7 @@
 import numpy as np
 import numpy.typing as npt
 from tt_sketch.tensor import DenseTensor
-from tt_sketch.utils import matricize
+from tt_sketch.utils import matricize, reverse_right_modes
 
 
 def sketch_omega_dense(
@@ -12,7 +12,8 @@ def sketch_omega_dense(
     mu: int,
     **kwargs
 ) -> npt.NDArray:
-    X_mat = matricize(tensor.data, range(mu + 1), mat_shape=True)
+    X = reverse_right_modes(tensor.data, mu + 1)
+    X_mat = matricize(X, range(mu + 1), mat_shape=True)
     return left_sketch @ X_mat @ rigth_sketch.T
 
 
@@ -25,7 +26,7 @@ def sketch_psi_dense(
     **kwargs
 ) -> npt.NDArray:
     ndim = tensor.ndim
-    tensor_data = tensor.data
+    tensor_data = reverse_right_modes(tensor.data, mu + 1)
     if left_sketch is None:
         tensor_mat = matricize(tensor_data, 0, mat_shape=True)
         Psi = tensor_mat @ right_sketch.T
diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index f12de64..6ad0ad6 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -83,6 +83,16 @@ def matricize(
     return A
 
 
+def reverse_right_modes(A: npt.NDArray, n_left: int) -> npt.NDArray:
+    """Keep the first ``n_left`` modes of ``A``, and reverse the order of the
+    others.
+
+    Right DRMs sketch the transpose of a tensor, hence this is the order of the
+    modes in which the contractions of a right DRM are stored."""
+    perm = tuple(range(n_left)) + tuple(range(n_left, A.ndim))[::-1]
+    return np.transpose(A, perm)
+
+
 def dematricize(A, mode, shape):
     """Undo matricization of ``A`` with respect to ``mode``. Needs ``shape`` of
     original tensor."""
-- 
2.43.0


From 82c1b405fb28e10d028cad24d953af608b6daa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 10/50] fix: sketch Tucker tensors with the same right DRM as
 other formats

As for dense tensors, the contraction of a right DRM has the modes of the core
in reversed order.
---
 tt_sketch/sketching_methods/tucker_sketch.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tt_sketch/sketching_methods/tucker_sketch.py b/tt_sketch/sketching_methods/tucker_sketch.py
index 96f4645..fe70b1f 100644
--- a/tt_sketch/sketching_methods/tucker_sketch.py
+++ b/tt_sketch/sketching_methods/tucker_sketch.py
@@ -3,7 +3,7 @@ from typing import Optional
 import numpy as np
 import numpy.typing as npt
 from tt_sketch.tensor import TuckerTensor
-from tt_sketch.utils import matricize
+from tt_sketch.utils import matricize, reverse_right_modes
 
 
 def sketch_omega_tucker(
@@ -15,7 +15,8 @@ def sketch_omega_tucker(
     **kwargs
 ):
     mode = tuple(range(mu + 1))
-    core_mat = matricize(tensor.core, mode, mat_shape=True)
+    core = reverse_right_modes(tensor.core, mu + 1)
+    core_mat = matricize(core, mode, mat_shape=True)
     return left_sketch.T @ core_mat @ right_sketch
 
 
@@ -29,7 +30,8 @@ def sketch_psi_tucker(
 ):
     left_dim = left_sketch.shape[0] if left_sketch is not None else 1
     right_dim = right_sketch.shape[0] if right_sketch is not None else 1
-    core_ord3 = tensor.core.reshape(left_dim, tensor.rank[mu], right_dim)
+    core = reverse_right_modes(tensor.core, mu + 1)
+    core_ord3 = core.reshape(left_dim, tensor.rank[mu], right_dim)
     if left_sketch is None:
         Psi = np.einsum("ijk,kl->ijl", core_ord3, right_sketch)  # type: ignore
     elif right_sketch is None:
-- 
2.43.0


From b56cc9d797e5fafe78169cc02a3d985804364cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 11/50] fix: slices of a TensorTrainDRM for dense and Tucker
 tensors

sketch_dense and sketch_tucker ignored the slice, so blocked sketches of dense
tensors failed to assemble and those of Tucker tensors raised.
---
 tt_sketch/drm/tensor_train_drm.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tt_sketch/drm/tensor_train_drm.py b/tt_sketch/drm/tensor_train_drm.py
index 985ce5c..45037fb 100644
--- a/tt_sketch/drm/tensor_train_drm.py
+++ b/tt_sketch/drm/tensor_train_drm.py
@@ -110,7 +110,7 @@ class TensorTrainDRM(
     def sketch_dense(self, tensor: DenseTensor) -> ArrayGenerator:
         n_dims = len(self.shape)
         partial_contraction = self.cores[0].reshape(-1, self.cores[0].shape[-1])
-        yield partial_contraction.T
+        yield partial_contraction[:, self.rank_min[0] : self.rank_max[0]].T
         for mu in range(1, n_dims - 1):
             core = self.cores[mu]
             partial_contraction = np.einsum(
@@ -119,7 +119,9 @@ class TensorTrainDRM(
             partial_contraction = partial_contraction.reshape(
                 -1, partial_contraction.shape[-1]
             )
-            yield partial_contraction.T
+            yield partial_contraction[
+                :, self.rank_min[mu] : self.rank_max[mu]
+            ].T
 
     @handle_transpose
     def sketch_tucker(self, tensor: TuckerTensor) -> ArrayGenerator:
@@ -128,9 +130,9 @@ class TensorTrainDRM(
             "ijk,jl->ilk", self.cores[0], tensor.factors[0].T
         )
         partial_contraction = partial_contraction.reshape(
-            tensor.rank[0], self.rank[0]
+            tensor.rank[0], partial_contraction.shape[-1]
         )
-        yield partial_contraction
+        yield partial_contraction[:, self.rank_min[0] : self.rank_max[0]]
 
         for mu in range(1, n_dims - 1):
             core_reduced = np.einsum(
@@ -142,4 +144,4 @@ class TensorTrainDRM(
             partial_contraction = partial_contraction.reshape(
                 -1, partial_contraction.shape[-1]
             )
-            yield partial_contraction
+            yield partial_contraction[:, self.rank_min[mu] : self.rank_max[mu]]
-- 
2.43.0


From 90fa7656e85d433ac37f6513dc1ae4974f4e772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 12/50] fix: seeding of DenseGaussianDRM

The matrices were drawn from the raw seed argument and slices and rank
increases from the normalized self.seed, so without a seed (or with a negative
or large one) slicing and increasing the rank gave unrelated matrices. Also,
creating the DRM reset the global numpy random state to a fixed value.
The numbers drawn for seeds in [0, 2**32 - 1) are unchanged.
---
 tt_sketch/drm/dense_gaussian_drm.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tt_sketch/drm/dense_gaussian_drm.py b/tt_sketch/drm/dense_gaussian_drm.py
index 6d637f1..5f2bb06 100644
--- a/tt_sketch/drm/dense_gaussian_drm.py
+++ b/tt_sketch/drm/dense_gaussian_drm.py
@@ -47,12 +47,16 @@ class DenseGaussianDRM(
             dim_prod *= n
 
             # TODO: make this correctly work with rank_increase and random_normal
-            np.random.seed(seed)
-            seed_offset = hash(np.random.uniform(0, dim_prod))
-            np.random.seed(np.mod(self.seed + seed_offset, 2**32 - 1))
+            # Use local generators: seeding the global one would make all the
+            # random numbers of the caller depend on the seed of the DRM.
+            rng = np.random.RandomState(self.seed)
+            seed_offset = hash(rng.uniform(0, dim_prod))
+            rng = np.random.RandomState(
+                np.mod(self.seed + seed_offset, 2**32 - 1)
+            )
 
             # sketching_mat = random_normal(shape=(r, dim_prod), seed=seed)
-            sketching_mat = np.random.normal(size=(r, dim_prod))
+            sketching_mat = rng.normal(size=(r, dim_prod))
             sketching_mat = sketching_mat[self.rank_min[mu] : self.rank_max[mu]]
             self.sketching_mats.append(sketching_mat)
 
-- 
2.43.0


From bdf8a032fa7e8a978e31b29c046a44f5e4a0c666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 13/50] fix: SparseTensor.random no longer resets the global
 numpy random state

The numbers drawn for a given seed are unchanged.
---
 tt_sketch/tensor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 14ad90a..994b54a 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -261,10 +261,9 @@ class SparseTensor(Tensor):
         """
         Generates a random sparse tensor with `nnz` non-zero gaussian entries
         """
-        if seed is not None:
-            np.random.seed(seed)
+        rng = np.random if seed is None else np.random.RandomState(seed)
         total_size = np.prod(shape)
-        indices_flat = np.random.choice(total_size, size=nnz, replace=False)
+        indices_flat = rng.choice(total_size, size=nnz, replace=False)
         indices = np.unravel_index(indices_flat, shape)
         entries = random_normal(shape=(nnz,), seed=seed)
         return cls(shape, indices, entries)
-- 
2.43.0


From eca7f06459085c639f2b21a03011b0cfa9158466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 14/50] fix: rmse of tensors with more than 2**63 entries

The integer product of the shape overflowed, e.g. for shape (10,) * 20.
---
 tt_sketch/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 994b54a..2f14db7 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -77,7 +77,7 @@ class Tensor(ABC):
                 return np.inf
             error /= other_norm
         if rmse:
-            error /= np.sqrt(np.prod(self.shape))
+            error /= np.sqrt(np.prod(self.shape, dtype=np.float64))
         return error
 
     @property
@@ -602,7 +602,7 @@ class TensorTrain(Tensor):
                     return np.inf
                 error /= other_norm
             if rmse:
-                error /= np.sqrt(np.prod(self.shape))
+                error /= np.sqrt(np.prod(self.shape, dtype=np.float64))
             return error
         else:
             return super().error(other, relative=relative, rmse=rmse, fast=fast)
-- 
2.43.0


From a8bae2575c3696ed954cc55d47bd9276cfa925a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 15/50] fix: error(fast=True) between two zero tensors was nan

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 2f14db7..6c9dfdd 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -69,7 +69,7 @@ class Tensor(ABC):
             self_norm = self.norm()
             dot = self.dot(other)
             norm_sum = self_norm**2 + other_norm**2
-            error = np.sqrt(norm_sum) * np.sqrt(np.abs(1 - 2 * dot / norm_sum))
+            error = np.sqrt(np.abs(norm_sum - 2 * dot))
         else:
             error = np.linalg.norm(self.to_numpy() - other.to_numpy())
         if relative:
-- 
2.43.0


From 54526e32127fa8d31701151e840c9e6edafbbe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 16/50] fix: SparseTensor.gather and dot after a change of the
 entries

The dictionary of the entries was cached, so that after e.g.
`tensor.entries *= 2` gather and dot kept using the old entries.
---
 tt_sketch/tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 6c9dfdd..63dd737 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -4,7 +4,6 @@ from __future__ import annotations
 from abc import ABC, abstractmethod, abstractproperty
 from copy import deepcopy
 from dataclasses import dataclass
-from functools import cached_property
 from typing import (
     Iterable,
     List,
@@ -284,7 +283,7 @@ class SparseTensor(Tensor):
             out[i] = dic.get(ind, 0.0)
         return out
 
-    @cached_property
+    @property
     def dict(self) -> Dict[int, float]:
         dense_indices = np.ravel_multi_index(self.indices, self.shape)
         return {i: v for i, v in zip(dense_indices, self.entries)}
-- 
2.43.0


From aec600694e14fceb79be1e7bea1bf30868e0c229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 17/50] fix: operations on an empty TensorSum

An empty sum (given its shape) could be sketched, but not transposed, scaled
or added to another empty sum (IndexError).
---
 tt_sketch/tensor.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 63dd737..41960d0 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -626,7 +626,7 @@ class TensorSum(Generic[TType], Tensor):
     @property
     def T(self) -> TensorSum:
         new_tensors: List[TType] = [X.T for X in self.tensors]
-        return self.__class__(new_tensors)
+        return self.__class__(new_tensors, shape=self.shape[::-1])
 
     def to_numpy(self) -> npt.NDArray[np.float64]:
         s = np.zeros(self.shape)
@@ -636,9 +636,11 @@ class TensorSum(Generic[TType], Tensor):
 
     def __add__(self, other: TType) -> TensorSum:
         if isinstance(other, TensorSum):
-            return self.__class__(self.tensors + other.tensors)
+            return self.__class__(
+                self.tensors + other.tensors, shape=self.shape
+            )
         else:
-            return self.__class__(self.tensors + [other])
+            return self.__class__(self.tensors + [other], shape=self.shape)
 
     def __iadd__(self, other: TType) -> TensorSum:
         if isinstance(other, TensorSum):
@@ -660,10 +662,13 @@ class TensorSum(Generic[TType], Tensor):
     def __mul__(self, other: Union[float, Iterable[float]]) -> TensorSum:
         try:
             return self.__class__(
-                [X * c for X, c in zip(self.tensors, other, strict=True)]
+                [X * c for X, c in zip(self.tensors, other, strict=True)],
+                shape=self.shape,
             )
         except TypeError:
-            return self.__class__([X * other for X in self.tensors])
+            return self.__class__(
+                [X * other for X in self.tensors], shape=self.shape
+            )
 
     def dot(self, other: Tensor, reverse=False) -> float:
         return sum(X.dot(other, reverse) for X in self.tensors)
-- 
2.43.0


From de5776966e15c40fd01e00649b3421eaee526dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 18/50] fix: transpose of a DRM

The transposed DRM kept the shape of the original tensor, so a transposed
SketchedTensorTrain could not be updated unless its shape was palindromic, and
its ranks were reversed, so with non-constant ranks the left and right rank of a
transposed sketch were reported in the wrong order.
---
 tt_sketch/drm_base.py        |  9 +++++----
 tt_sketch/sketch_dispatch.py | 14 +++++++-------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/tt_sketch/drm_base.py b/tt_sketch/drm_base.py
index 8d35da0..b62aec1 100644
--- a/tt_sketch/drm_base.py
+++ b/tt_sketch/drm_base.py
@@ -64,12 +64,13 @@ class DRM(ABC):
 
     @property
     def T(self):
+        """DRM that sketches ``tensor.T`` like this one sketches ``tensor``.
+
+        A right DRM is stored as a left DRM for the transposed tensor, so only
+        the shape changes."""
         transposed = deepcopy(self)
         transposed.transpose = not self.transpose
-        transposed.true_rank = transposed.true_rank[::-1]
-        transposed.rank_min = transposed.rank_min[::-1]
-        transposed.rank_max = transposed.rank_max[::-1]
-        transposed.rank = transposed.rank[::-1]
+        transposed.shape = self.shape[::-1]
         return transposed
 
     def __repr__(self) -> str:
diff --git a/tt_sketch/sketch_dispatch.py b/tt_sketch/sketch_dispatch.py
index 40f937e..2fea54b 100644
--- a/tt_sketch/sketch_dispatch.py
+++ b/tt_sketch/sketch_dispatch.py
@@ -217,9 +217,9 @@ def general_sketch(
         left_contractions = list(get_sketch_method(tensor, left_drm)(tensor))
     right_contractions = list(get_sketch_method(tensor, right_drm)(tensor))
 
-    if left_drm is None:
-        # This is just required for shape information in the case of HMT
-        left_drm = right_drm.T
+    right_rank = right_drm.rank[::-1]
+    # In the case of HMT the ranks are given by the right DRM
+    left_rank = right_rank if left_drm is None else left_drm.rank
 
     Psi_cores: ArrayList = []
 
@@ -228,7 +228,7 @@ def general_sketch(
     if method != SketchMethod.hmt:
         omega_method = OMEGA_METHODS[type(tensor)]
         for mu in range(n_dims - 1):
-            omega_shape = (left_drm.rank[mu], right_drm.rank[::-1][mu])
+            omega_shape = (left_rank[mu], right_rank[mu])
             Omega_mats.append(
                 omega_method(
                     left_contractions[mu],
@@ -240,7 +240,7 @@ def general_sketch(
             )
 
     if method in (SketchMethod.hmt, SketchMethod.orthogonal):
-        left_psi_drm = OrthogTTDRM(left_drm.rank, tensor)
+        left_psi_drm = OrthogTTDRM(left_rank, tensor)
 
     # Compute Psi cores
     psi_method = PSI_METHODS[type(tensor)]
@@ -251,13 +251,13 @@ def general_sketch(
                 left_sketch = next(left_psi_drm)
             else:
                 left_sketch = left_contractions[mu - 1]
-            r1 = left_drm.rank[mu - 1]
+            r1 = left_rank[mu - 1]
         else:
             left_sketch = None
             r1 = 1
         if mu < n_dims - 1:
             right_sketch = right_contractions[mu]
-            r2 = right_drm.rank[::-1][mu]
+            r2 = right_rank[mu]
         else:
             right_sketch = None
             r2 = 1
-- 
2.43.0


From 29b8bd7ce968199dfeb1c6bfd165a42ca6aa34ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 19/50] fix: slice of a right DRM without end rank

The default end rank was used in reversed order.
---
 tt_sketch/drm_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/drm_base.py b/tt_sketch/drm_base.py
index b62aec1..aca2f52 100644
--- a/tt_sketch/drm_base.py
+++ b/tt_sketch/drm_base.py
@@ -100,7 +100,7 @@ class CanSlice(DRM):
         else:
             new_true_rank = self.true_rank
         return self.__class__(
-            rank=self.rank,
+            rank=new_true_rank,
             shape=self.shape,
             transpose=self.transpose,
             seed=self.seed,
-- 
2.43.0


From b1fc92a7c1810f0d315de47afa4cfbff20a7e0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 20/50] fix: number of non-zeros per row of SparseSignDRM

Slicing reset it to the rank, so slices were no columns of the original DRM. For
right DRMs it was used in the order opposite to that of the rank, and a number
exceeding the rank made the native code write outside of its array.
---
 tt_sketch/drm/sparse_sign_drm.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/tt_sketch/drm/sparse_sign_drm.py b/tt_sketch/drm/sparse_sign_drm.py
index d38634e..0afbb7d 100644
--- a/tt_sketch/drm/sparse_sign_drm.py
+++ b/tt_sketch/drm/sparse_sign_drm.py
@@ -2,10 +2,10 @@ from typing import Optional, Tuple, Union
 
 import numpy as np
 from tt_sketch.drm.fast_lazy_gaussian import inds_to_sparse_sign  # type: ignore
-from tt_sketch.drm_base import CanSlice, handle_transpose
+from tt_sketch.drm_base import DRM, CanSlice, handle_transpose
 from tt_sketch.sketching_methods.abstract_methods import CansketchSparse
 from tt_sketch.tensor import SparseTensor
-from tt_sketch.utils import ArrayGenerator
+from tt_sketch.utils import ArrayGenerator, process_tt_rank
 
 
 class SparseSignDRM(CansketchSparse, CanSlice):
@@ -28,8 +28,22 @@ class SparseSignDRM(CansketchSparse, CanSlice):
     ) -> None:
         super().__init__(rank, shape, transpose, seed=seed, **kwargs)
         if num_non_zero_per_row is None:
-            num_non_zero_per_row = self.true_rank
-        self.nnz = num_non_zero_per_row
+            self.nnz = self.true_rank
+        else:
+            self.nnz = process_tt_rank(num_non_zero_per_row, shape, trim=False)
+            if transpose:
+                self.nnz = self.nnz[::-1]
+        if any(nnz > r for nnz, r in zip(self.nnz, self.true_rank)):
+            raise ValueError(
+                "The number of non-zeros per row can't be more than the rank"
+            )
+
+    def slice(
+        self, start_rank: Tuple[int, ...], end_rank: Tuple[int, ...]
+    ) -> DRM:
+        sliced = super().slice(start_rank, end_rank)
+        sliced.nnz = self.nnz  # type: ignore
+        return sliced
 
     @handle_transpose
     def sketch_sparse(self, tensor: SparseTensor) -> ArrayGenerator:
-- 
2.43.0


From 96ef533cbafc873fccc3dd44cf57b54bf4099a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 21/50] fix: integer or list as rank together with a given DRM

The rank was compared to that of the DRM before it was made a tuple, so a
matching rank was rejected with ValueError.
---
 tt_sketch/sketch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index b6c4fd2..063c80a 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -63,6 +63,7 @@ def hmt_sketch(
         rank = process_tt_rank(rank, tensor.shape, trim=True)
         drm = drm_type(rank, transpose=True, shape=tensor.shape, seed=seed)
     else:
+        rank = process_tt_rank(rank, tensor.shape, trim=False)
         if tuple(drm.rank[::-1]) != rank:
             raise ValueError(
                 f"Right rank {rank} does not match the rank of the DRM "
@@ -116,6 +117,7 @@ def orthogonal_sketch(
             left_rank, transpose=False, shape=tensor.shape, seed=seed
         )
     else:
+        left_rank = process_tt_rank(left_rank, tensor.shape, trim=False)
         if left_drm.rank != left_rank:
             raise ValueError(
                 f"Left rank {left_rank} does not match the rank of the DRM "
@@ -134,6 +136,7 @@ def orthogonal_sketch(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
     else:
+        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
         if tuple(right_drm.rank[::-1]) != right_rank:
             raise ValueError(
                 f"Right rank {right_rank} does not match the rank of the DRM "
@@ -192,6 +195,7 @@ def stream_sketch(
             left_rank, transpose=False, shape=tensor.shape, seed=seed
         )
     else:
+        left_rank = process_tt_rank(left_rank, tensor.shape, trim=False)
         if left_drm.rank != left_rank:
             raise ValueError(
                 f"Left rank {left_rank} does not match the rank of the DRM "
@@ -212,6 +216,7 @@ def stream_sketch(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
     else:
+        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
         if tuple(right_drm.rank[::-1]) != right_rank:
             raise ValueError(
                 f"Right rank {right_rank} does not match the rank of the DRM "
-- 
2.43.0


From c71057d434608d28d4b077439308221fbe57a448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 22/50] fix: reject DRMs that cannot increase their rank with
 the intended ValueError

---
 tt_sketch/sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index 063c80a..cc5bc1f 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -321,7 +321,7 @@ class SketchedTensorTrain(Tensor):
             new_right_rank, tensor.shape, trim=False
         )
         for drm in (self.left_drm, self.right_drm):
-            if not isinstance(drm, CanSlice):
+            if not isinstance(drm, CanIncreaseRank):
                 drm_name = drm.__class__.__name__
                 raise ValueError(
                     f"Increasing rank is not supported for DRM {drm_name}"
-- 
2.43.0


From d2b868604460433ffe095e354e45d772baa3c49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 23/50] fix: seeded sketches are reproducible across processes

The seed of the right DRM was derived from the hash of a string, which python
randomizes for every process.
---
 tt_sketch/sketch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index cc5bc1f..c52343d 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 
 from dataclasses import dataclass
 from typing import Dict, List, Optional, Sequence, Tuple, Type
+from zlib import crc32
 
 import numpy as np
 import numpy.typing as npt
@@ -131,7 +132,7 @@ def orthogonal_sketch(
             else:
                 right_drm_type = TensorTrainDRM
         right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
-        right_seed = np.mod(seed + hash(str(d)), 2**32)
+        right_seed = np.mod(seed + crc32(str(d).encode()), 2**32)
         right_drm = right_drm_type(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
@@ -211,7 +212,7 @@ def stream_sketch(
         right_rank = process_tt_rank(
             right_rank, tensor.shape, trim=left_rank_bigger
         )
-        right_seed = np.mod(seed + hash(str(d)), 2**32)
+        right_seed = np.mod(seed + crc32(str(d).encode()), 2**32)
         right_drm = right_drm_type(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
-- 
2.43.0


From 0c77933e18c3bc3fba5a55636a348ffdc65709c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 24/50] fix: trimming of ranks for large shapes given as numpy
 integers

The product of the dimensions overflowed, and ranks became zero or negative.
---
 tt_sketch/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 6ad0ad6..84d1ae5 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -140,6 +140,8 @@ def trim_ranks(
     the requirements are all satisfied.
     """
     ranks_trimmed = list(ranks)
+    # products of numpy integers would overflow
+    dims = tuple(int(d) for d in dims)
 
     for i, r in enumerate(ranks_trimmed):
         dim_left = reduce(mul, dims[: i + 1], 1)
-- 
2.43.0


From d868a2760482a74f51fcba5b6cf37c0d830fe45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 25/50] fix: pairwise rounding of a sum with a single summand

The summand was returned as is, whatever its rank.
---
 tt_sketch/tt_gmres.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index d209ad5..3c66592 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -281,6 +281,8 @@ def round_tt_sum(
         return tt.round(eps, max_rank)
     elif method == "pairwise":
         tt = tt_sum.tensors[0]
+        if tt_sum.num_summands == 1:
+            tt = tt.round(eps=eps, max_rank=max_rank)
         for t in tt_sum.tensors[1:]:
             tt = tt.add(t).round(eps=eps, max_rank=max_rank)
     elif method == "sketch":
-- 
2.43.0


From d19c0dec8e7a819ddaed4bf520ff2f488b21b989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 26/50] fix: residual norm in TT-GMRES

After the first step the squared residual norm was used in the stopping
criterion and for the rounding precision, so the iteration stopped when the
residual was only below the square root of the tolerance. For rank-deficient
problems, where lstsq returns no residual, it raised ValueError.
---
 tt_sketch/tt_gmres.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index 3c66592..394755b 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -403,9 +403,10 @@ def tt_sum_gmres(
         H_red = H_matrix[: j + 2, : j + 1]
         e1 = np.zeros(j + 2)
         e1[0] = beta
-        y, (residual_norm,), _, _ = np.linalg.lstsq(H_red, e1, rcond=None)
+        y = np.linalg.lstsq(H_red, e1, rcond=None)[0]
+        residual_norm = np.linalg.norm(e1 - H_red @ y)
         history["step_time_with_res_norm"].append(perf_counter() - current_time)
-        history["residual_norm"].append(np.sqrt(residual_norm) / b_norm)
+        history["residual_norm"].append(residual_norm / b_norm)
         history["rank"].append(w_rounded.rank)
         history["w_norm"].append(H_matrix[j + 1, j])
         history["delta"].append(delta)
-- 
2.43.0


From f40b6ae7a9b8aa8c27da6fdd70dc38d2b2dc6235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 27/50] fix: TT-GMRES returned nan if the initial residual is
 zero

Also stop if the Krylov space is exhausted, since the next basis vector would be
nan.
---
 tt_sketch/tt_gmres.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index 394755b..66939a9 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -362,10 +362,20 @@ def tt_sum_gmres(
     )
     residual_norm = residual_rounded.norm()
     beta = residual_norm
+    history: Dict[str, Any] = defaultdict(list)
+    if beta == 0:  # the initial value is the solution
+        history["rank"].append(residual_rounded.rank)
+        history["residual_norm"].append(0.0)
+        result_rounded = round_tt_sum(
+            TensorSum([x0]),
+            max_rank=final_round_rank,
+            method=rounding_method_final,
+        )
+        history["total_time"] = perf_counter() - initial_time
+        return result_rounded, history
     nu_list: List[TensorTrain] = [residual_rounded / beta]
     H_matrix = np.zeros((maxiter + 1, maxiter))
 
-    history: Dict[str, Any] = defaultdict(list)
     history["w_norm"].append(nu_list[-1].norm())
     history["rank"].append(residual_rounded.rank)
     history["residual_norm"].append(residual_norm / b_norm)
@@ -411,7 +421,7 @@ def tt_sum_gmres(
         history["w_norm"].append(H_matrix[j + 1, j])
         history["delta"].append(delta)
 
-        if residual_norm / b_norm < tolerance:
+        if residual_norm <= tolerance * b_norm or H_matrix[j + 1, j] == 0:
             break
 
     # Compute final result and round
-- 
2.43.0


From df84c94a57d4c2048a274e2bec8bae7077c34215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 28/50] fix: TensorTrain.add of tensors of order 1

The result had two cores, and hence order 2.
---
 tt_sketch/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 41960d0..8864784 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -522,6 +522,8 @@ class TensorTrain(Tensor):
         Note, this does not overload the addition operator ``+``; the addition
         operator instead returns a lazy ``TensorSum`` object.
         """
+        if self.ndim == 1:
+            return self.__class__([self.cores[0] + other.cores[0]])
         new_cores = [np.concatenate((self.cores[0], other.cores[0]), axis=2)]
         for C1, C2 in zip(self.cores[1:-1], other.cores[1:-1]):
             r1, d, r2 = C1.shape
-- 
2.43.0


From cdd36af34a71933e12b1261bf0c30668f54c6c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 29/50] fix: gather of TensorTrain for unsigned indices

---
 tt_sketch/tensor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 8864784..20aaa25 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -424,9 +424,8 @@ class TensorTrain(Tensor):
         else:
             idx_array = np.array(idx)
         N = idx_array.shape[1]
-        result = np.take(
-            self[0].reshape(self[0].shape[1:]), idx_array[0], axis=0
-        )
+        # indexing, since np.take does not accept unsigned integers
+        result = self[0].reshape(self[0].shape[1:])[idx_array[0]]
         for i in range(1, self.ndim):
             r = self[i].shape[2]
             next_step = np.zeros((N, r))
-- 
2.43.0


From 59233bc9de36fbf4cd275f9ea23f7ebaeda65832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 30/50] fix: a resumed Experiment repeated experiments that
 were done before

---
 scripts/experiment_base.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index c5343e9..8e50364 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -9,6 +9,17 @@ from tt_sketch.tensor import Tensor, TensorTrain
 from tt_sketch.tt_svd import tt_svd
 
 
+def _read_csv(filename: str) -> pd.DataFrame:
+    # Only empty fields are missing values ("None" is a value of an argument),
+    # and floats need to be read back as exactly the ones that were stored.
+    return pd.read_csv(
+        filename,
+        na_values=[""],
+        keep_default_na=False,
+        float_precision="round_trip",
+    )
+
+
 class Experiment:
     data: pd.DataFrame
     filename: str
@@ -23,7 +34,7 @@ class Experiment:
         self.filename = filename
         if data is None:
             if isfile(filename) and not force_overwrite:
-                data = pd.read_csv(filename)
+                data = _read_csv(filename)
             else:
                 data = pd.DataFrame(columns=["name", "error", "time_taken"])
 
@@ -31,7 +42,7 @@ class Experiment:
 
     @classmethod
     def load(cls, filename):
-        data = pd.read_csv(filename)
+        data = _read_csv(filename)
         return cls(filename, data)
 
     def save(self):
@@ -41,9 +52,15 @@ class Experiment:
         masks = []
         for column, value in conds.items():
             try:
-                masks.append(self.data[column] == value)
+                stored = self.data[column]
             except KeyError:
                 return False
+            # Columns with values of mixed type are strings once loaded
+            mask = (stored == value) | (stored.astype(str) == str(value))
+            if not isinstance(value, str):
+                numeric = pd.to_numeric(stored, errors="coerce")
+                mask |= numeric == float(value)
+            masks.append(mask)
         mask = reduce(lambda x, y: x & y, masks)
         return mask.sum() > 0
 
-- 
2.43.0


From 675e34e8c4c0c788551b56d6d83dbe28aa3ec191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 31/50] fix: a crash while saving an Experiment lost its
 results

---
 scripts/experiment_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index 8e50364..eb70dc2 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -1,3 +1,4 @@
+import os
 import time
 from functools import reduce
 from os.path import isfile
@@ -46,7 +47,10 @@ class Experiment:
         return cls(filename, data)
 
     def save(self):
-        self.data.to_csv(self.filename)
+        # Never leave a partially written file behind
+        temporary = f"{self.filename}.tmp"
+        self.data.to_csv(temporary)
+        os.replace(temporary, self.filename)
 
     def check_experiment_done(self, conds):
         masks = []
-- 
2.43.0


From 3bc6f929a2f6217ca8e1a9d9ac8ad4d3348e4177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 32/50] fix: products with pseudo-inverses of rank deficient
 matrices

The cutoff for singular values was eps, so rounding errors could count as
singular values, and the product was wrong by many orders of magnitude.
---
 tt_sketch/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 84d1ae5..7d6c45e 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -107,13 +107,15 @@ def dematricize(A, mode, shape):
 
 def right_mul_pinv(A, B, cond=None):
     """Compute numerically stable product ``A@np.linalg.pinv(B)``"""
-    lstsq = scipy.linalg.lstsq(B.T, A.T, cond=cond)
-
-    return lstsq[0].T
+    return left_mul_pinv(B.T, A.T, cond=cond).T
 
 
 def left_mul_pinv(A, B, cond=None):
     """Compute numerically stable product ``np.linalg.pinv(A)@B``"""
+    if cond is None:
+        # The default of lstsq is eps, and the singular values of a rank
+        # deficient matrix can be a bit bigger than that due to rounding errors
+        cond = max(A.shape) * np.finfo(float).eps
     lstsq = scipy.linalg.lstsq(A, B, cond=cond)
 
     return lstsq[0]
-- 
2.43.0


From e27d2d3961a17e6541048769eac7447b7f7fed04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:36 +0000
Subject: [PATCH 33/50] fix: lazy DRMs of consecutive seeds or modes were
 shifted copies of each other

The seed was added to the position, so the map with seed s+1 had the numbers of
the one with seed s at the next position. The same holds for the next mode,
which uses the next seed.
---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index 3217552..b5fcb74 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -76,7 +76,10 @@ cpdef double[:] _inds_to_rand_double(
     # are still the same)
     
     for i in range(rank):
-        size_salt[i] += seed
+        size_salt[i] ^= seed
+    # Otherwise the numbers of the next seed (and hence those of the next mode)
+    # would be the same ones, just moved by one position
+    hash_int_c(size_salt)
 
     cdef uint64[:,:] indices_flat_large = np.empty(
         (N, rank), dtype=np.uint64
-- 
2.43.0


From e72b433d3e2f43191d11c088c3b435971c0a0e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:53 +0000
Subject: [PATCH 34/50] fix: lazy DRMs of one seed shared matrices with those
 of the next seed

Mode mu used the seed plus mu, so the second matrix of one DRM had the numbers
of the first one of the DRM with the next seed.
---
 tt_sketch/drm/sparse_gaussian_drm.py | 2 +-
 tt_sketch/drm/sparse_sign_drm.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/drm/sparse_gaussian_drm.py b/tt_sketch/drm/sparse_gaussian_drm.py
index 16a4fb4..27ba67c 100644
--- a/tt_sketch/drm/sparse_gaussian_drm.py
+++ b/tt_sketch/drm/sparse_gaussian_drm.py
@@ -32,7 +32,7 @@ class SparseGaussianDRM(CansketchSparse, CanIncreaseRank):
         for mu in range(d - 1):
             shape = tensor.shape[: mu + 1]
             sketch_seed = np.mod(
-                mu + self.seed, 2**63, dtype=np.uint64
+                (mu << 32) + int(self.seed), 2**63, dtype=np.uint64
             )  # ensure safe casting to uint
             sketch_mat = inds_to_normal(
                 tensor.indices[: mu + 1],
diff --git a/tt_sketch/drm/sparse_sign_drm.py b/tt_sketch/drm/sparse_sign_drm.py
index 0afbb7d..caca7aa 100644
--- a/tt_sketch/drm/sparse_sign_drm.py
+++ b/tt_sketch/drm/sparse_sign_drm.py
@@ -51,7 +51,7 @@ class SparseSignDRM(CansketchSparse, CanSlice):
         for mu in range(d - 1):
             shape = tensor.shape[: mu + 1]
             sketch_seed = np.mod(
-                mu + self.seed, 2**63, dtype=np.uint64
+                (mu << 32) + int(self.seed), 2**63, dtype=np.uint64
             )  # ensure safe casting to uint
             sketch_mat = inds_to_sparse_sign(
                 tensor.indices[: mu + 1],
-- 
2.43.0


From 8081c6263521368fb78caa4596bac3a31ea2e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 35/50] fix: seeded random numbers depended on the number of
 cores of the machine

MultithreadedRNG uses one stream per thread, and used one thread per core.
---
 tt_sketch/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 7d6c45e..956dc80 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -1,6 +1,5 @@
 # %%
 import concurrent.futures
-import multiprocessing
 from functools import reduce
 from operator import mul
 from typing import Generator, List, Optional, Sequence, Tuple, Union
@@ -198,7 +197,9 @@ class MultithreadedRNG:
 
     def __init__(self, shape, seed=None, threads=None):
         if threads is None:
-            threads = multiprocessing.cpu_count()
+            # The numbers depend on the number of threads, so for the same seed
+            # to give the same numbers it can't depend on the machine
+            threads = 8
         self.threads = threads
 
         seq = np.random.SeedSequence(seed)
-- 
2.43.0


From cdf2f0c3b34f33c53612524e16d3d6b70e1bab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:42 +0000
Subject: [PATCH 36/50] fix: core and first factor of a random Tucker tensor
 used the same random numbers

---
 tt_sketch/tensor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 20aaa25..f6ed088 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -809,11 +809,11 @@ class TuckerTensor(Tensor):
         rank_tuple = tuple(min(r1, r2) for r1, r2 in zip(rank_tuple, shape))
 
         seq = SeedSequence(seed)
-        core_seed = seq.generate_state(1)[0]
-        core = random_normal(shape=rank_tuple, seed=core_seed)
+        # one call, since every call of generate_state starts anew
+        seeds = seq.generate_state(d + 1)
+        core = random_normal(shape=rank_tuple, seed=seeds[0])
         factors = []
-        seeds = seq.generate_state(d)
-        for r, n, seed in zip(rank_tuple, shape, seeds):
+        for r, n, seed in zip(rank_tuple, shape, seeds[1:]):
             U = random_normal(shape=(r, n), seed=seed)
             U = np.linalg.qr(U.T)[0].T
             factors.append(U)
-- 
2.43.0


From b273183077de1f802143b69df5199a7cd1449d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:51 +0000
Subject: [PATCH 37/50] fix: dense Gaussian maps of neighbouring modes shared
 entries at modes of size one

---
 tt_sketch/drm/dense_gaussian_drm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/drm/dense_gaussian_drm.py b/tt_sketch/drm/dense_gaussian_drm.py
index 5f2bb06..4c903ca 100644
--- a/tt_sketch/drm/dense_gaussian_drm.py
+++ b/tt_sketch/drm/dense_gaussian_drm.py
@@ -52,7 +52,8 @@ class DenseGaussianDRM(
             rng = np.random.RandomState(self.seed)
             seed_offset = hash(rng.uniform(0, dim_prod))
             rng = np.random.RandomState(
-                np.mod(self.seed + seed_offset, 2**32 - 1)
+                # the offset is the same for modes of size one, unlike mu
+                np.mod(self.seed + seed_offset + mu, 2**32 - 1)
             )
 
             # sketching_mat = random_normal(shape=(r, dim_prod), seed=seed)
-- 
2.43.0


From e3cd5fc6445d0bc17f0c85abaaa9d991b004ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:36 +0000
Subject: [PATCH 38/50] fix: lazy maps with more than 2**31 entries had wrong
 entries (32-bit index overflow)

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index b5fcb74..55ef4fd 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -24,7 +24,7 @@ cpdef hash_int_c(uint64[:] vals):
     cdef uint64 mult2 = 0x94D049BB133111EB
     cdef uint64 add1 = 0X4BE98134A5976FD3
 
-    cdef int i
+    cdef Py_ssize_t i
     cdef uint64 r
     for i in range(N):
         r = vals[i]
@@ -58,13 +58,14 @@ cpdef double[:] _inds_to_rand_double(
     uint64 seed,
 ):  
     cdef uint64[:] indices_flat = np.copy(indices[0])
-    cdef int N = indices.shape[1]
+    # N * rank can exceed 2**31, even though N and rank don't
+    cdef Py_ssize_t N = indices.shape[1]
     cdef int n_dim = len(shape)
     cdef int rank = rank_max - rank_min
 
     cdef uint64 prod = shape[0]
-    cdef int i
-    cdef int j
+    cdef Py_ssize_t i
+    cdef Py_ssize_t j
     for i in range(1,n_dim):
         for j in range(N):
             indices_flat[j] += indices[i,j] * prod
@@ -134,8 +135,8 @@ cdef short[:] _inds_to_sparse_sign(
         indices, shape, 0, nnz, seed
     )
     cdef short[:] sparse_sign = np.zeros((N*rank), dtype=np.int16)
-    cdef int i
-    cdef int j
+    cdef Py_ssize_t i
+    cdef Py_ssize_t j
     cdef int e
     cdef short temp
     cdef int rand_num
-- 
2.43.0


From 69ff53c96761fdf543f3313765a1fb859475052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:36 +0000
Subject: [PATCH 39/50] fix: rounding a tensor train with long modes needed
 memory quadratic in the mode size

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index f6ed088..96c45ff 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -470,7 +470,7 @@ class TensorTrain(Tensor):
                 C = np.einsum("ijk,kl->ijl", C, US_trunc)
             if mu > 0:
                 C_mat = C.reshape(C.shape[0], C.shape[1] * C.shape[2])
-                U, S, Vt = np.linalg.svd(C_mat)
+                U, S, Vt = np.linalg.svd(C_mat, full_matrices=False)
                 r = max(1, min(np.sum(S > S[0] * eps), max_rank[mu - 1]))
                 US_trunc = U[:, :r] @ np.diag(S[:r])
                 Vt_trunc = Vt[:r, :]
-- 
2.43.0


From 67b16c897ea0f32bc5bd990621dc60d87603f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:25 +0000
Subject: [PATCH 40/50] fix: SparseTensor.random needed time and memory of the
 dense tensor

---
 tt_sketch/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 96c45ff..4c65a8c 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -260,7 +260,8 @@ class SparseTensor(Tensor):
         """
         Generates a random sparse tensor with `nnz` non-zero gaussian entries
         """
-        rng = np.random if seed is None else np.random.RandomState(seed)
+        # Generator.choice doesn't permute all positions, unlike the legacy one
+        rng = np.random.default_rng(seed)
         total_size = np.prod(shape)
         indices_flat = rng.choice(total_size, size=nnz, replace=False)
         indices = np.unravel_index(indices_flat, shape)
-- 
2.43.0


From f5a7878fd63ab0c2afffec26557054cc2280f2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:25 +0000
Subject: [PATCH 41/50] fix: sparse tensors with more than 32 modes or 2**63
 positions couldn't be read or drawn at random

---
 tt_sketch/tensor.py | 45 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 4c65a8c..ccfbc7d 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 from abc import ABC, abstractmethod, abstractproperty
 from copy import deepcopy
 from dataclasses import dataclass
+import math
 from typing import (
     Iterable,
     List,
@@ -26,6 +27,35 @@ from tt_sketch.utils import ArrayList, TTRank, process_tt_rank, random_normal
 TType = TypeVar("TType", bound="Tensor")
 
 
+def ravel_multi_index(
+    indices: Sequence[npt.NDArray], shape: Tuple[int, ...]
+) -> npt.NDArray:
+    """
+    Like ``np.ravel_multi_index``, for any number of modes and positions
+    """
+    if len(shape) <= 32 and math.prod(int(n) for n in shape) < 2**63:
+        return np.ravel_multi_index(indices, shape)
+    flat = np.zeros(len(indices[0]), dtype=object)  # python integers
+    for ind, n in zip(indices, shape):
+        if np.any(ind < 0) or np.any(ind >= n):
+            raise ValueError("invalid entry in coordinates array")
+        flat = flat * int(n) + ind
+    return flat
+
+
+def unravel_index(
+    indices_flat: npt.NDArray[np.int64], shape: Tuple[int, ...]
+) -> Tuple[npt.NDArray[np.int64], ...]:
+    """
+    Like ``np.unravel_index``, for any number of modes
+    """
+    indices = []
+    for n in reversed(shape):
+        indices_flat, ind = np.divmod(indices_flat, n)
+        indices.append(ind)
+    return tuple(indices[::-1])
+
+
 class Tensor(ABC):
     """Abstract base class for tensors."""
 
@@ -262,9 +292,14 @@ class SparseTensor(Tensor):
         """
         # Generator.choice doesn't permute all positions, unlike the legacy one
         rng = np.random.default_rng(seed)
-        total_size = np.prod(shape)
-        indices_flat = rng.choice(total_size, size=nnz, replace=False)
-        indices = np.unravel_index(indices_flat, shape)
+        total_size = math.prod(int(n) for n in shape)
+        if total_size < 2**63:
+            indices_flat = rng.choice(total_size, size=nnz, replace=False)
+            indices = unravel_index(indices_flat, shape)
+        else:  # so many positions that they hardly ever coincide
+            indices = np.zeros((len(shape), 0), dtype=np.int64)
+            while np.unique(indices, axis=1).shape[1] < nnz:
+                indices = np.stack([rng.integers(n, size=nnz) for n in shape])
         entries = random_normal(shape=(nnz,), seed=seed)
         return cls(shape, indices, entries)
 
@@ -277,7 +312,7 @@ class SparseTensor(Tensor):
         """
         Gathers the entries corresponding to the given indices.
         """
-        dense_indices = np.ravel_multi_index(indices, self.shape)
+        dense_indices = ravel_multi_index(indices, self.shape)
         out = np.zeros(len(dense_indices))
         dic = self.dict
         for i, ind in enumerate(dense_indices):
@@ -286,7 +321,7 @@ class SparseTensor(Tensor):
 
     @property
     def dict(self) -> Dict[int, float]:
-        dense_indices = np.ravel_multi_index(self.indices, self.shape)
+        dense_indices = ravel_multi_index(self.indices, self.shape)
         return {i: v for i, v in zip(dense_indices, self.entries)}
 
 
-- 
2.43.0


From ba9f3a7bf4f91a34855a525ac8741beb3685acd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:52 +0000
Subject: [PATCH 42/50] fix: trim_ranks stopped after 100 sweeps, leaving ranks
 too large for more than 100 modes of size one

---
 tt_sketch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 956dc80..ab15693 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -150,7 +150,7 @@ def trim_ranks(
         ranks_trimmed[i] = min(r, dim_left, dim_right)
     changed = True
     ranks_trimmed = [1] + ranks_trimmed + [1]
-    for _ in range(100):
+    for _ in range(len(dims) + 1):  # a bound may pass through all modes
         changed = False
         for i, d in enumerate(dims):
             if ranks_trimmed[i + 1] > ranks_trimmed[i] * d:
-- 
2.43.0


From 6bc6169afb8c1cf62a0b27c7745bc9fe7487630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:52 +0000
Subject: [PATCH 43/50] fix: sparse sign permutation could index one past the
 rank and write outside its array

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index 55ef4fd..0d7c300 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -151,7 +151,8 @@ cdef short[:] _inds_to_sparse_sign(
         # randomly permute
         for j in range(nnz):
             # random int in [j,rank)
-            rand_num = <int>(uniform_nums[i*nnz+j]*(rank-j) + j) 
+            # (add j last, rounding of the sum could give rank)
+            rand_num = <int>(uniform_nums[i*nnz+j]*(rank-j)) + j
             temp = sparse_sign[i*rank+j]
             sparse_sign[i*rank+j] = sparse_sign[i*rank+rand_num]
             sparse_sign[i*rank+rand_num]=temp
-- 
2.43.0


From f3f60e1a055f91305fa708bc520cc482555e9005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:52 +0000
Subject: [PATCH 44/50] fix: lazy Gaussian DRMs had an entry of minus infinity
 where the hashed bits were all zero

---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index 0d7c300..b20f23a 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -46,6 +46,8 @@ cdef uint_to_normal(double[:] nums):
     cdef double x
     for i in range(N): #prange here messes stuff up when parallelizing
         x = frexp(nums[i], &e) * 2 - 1
+        if x == 0: # half the smallest other value, since ndtri(0) is -inf
+            x = 2.0**-53
         x = scipy.special.cython_special.ndtri(x)
         nums[i] = x
 
-- 
2.43.0


From 4b2e49c36bf5cf7a3c9c0f57fd7d3abb1499437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:23 +0000
Subject: [PATCH 45/50] fix: slices of a TensorTrainDRM with given cores used
 other cores

---
 tt_sketch/drm/tensor_train_drm.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tt_sketch/drm/tensor_train_drm.py b/tt_sketch/drm/tensor_train_drm.py
index 45037fb..524c750 100644
--- a/tt_sketch/drm/tensor_train_drm.py
+++ b/tt_sketch/drm/tensor_train_drm.py
@@ -1,3 +1,5 @@
+from __future__ import annotations
+
 from typing import Optional, Tuple, Union
 
 import numpy as np
@@ -57,6 +59,14 @@ class TensorTrainDRM(
         else:
             self.cores = kwargs["cores"]
 
+    def slice(
+        self, start_rank: Tuple[int, ...], end_rank: Tuple[int, ...]
+    ) -> TensorTrainDRM:
+        sliced = super().slice(start_rank, end_rank)
+        # The cores might not be the ones that follow from the seed
+        sliced.cores = self.cores
+        return sliced
+
     @handle_transpose
     def sketch_sparse(self, tensor: SparseTensor) -> ArrayGenerator:
         for mu, core in enumerate(self.cores):
-- 
2.43.0


From b3dabcf6bcb3d64d24fc154e8035257610fe2355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:23 +0000
Subject: [PATCH 46/50] fix: streaming experiments failed for recompression
 ranks given per mode

---
 scripts/experiment_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index eb70dc2..e5ed72d 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -8,6 +8,7 @@ import pandas as pd
 from tt_sketch.sketch import stream_sketch, orthogonal_sketch, hmt_sketch
 from tt_sketch.tensor import Tensor, TensorTrain
 from tt_sketch.tt_svd import tt_svd
+from tt_sketch.utils import process_tt_rank
 
 
 def _read_csv(filename: str) -> pd.DataFrame:
@@ -130,7 +131,10 @@ def experiment_stream_sketch(
     )
     if recompression_rank is not None:
         tt_sketched = tt_sketched.to_tt().round(max_rank=recompression_rank)
-        assert max(tt_sketched.rank) <= recompression_rank
+        max_rank = process_tt_rank(
+            recompression_rank, tt_sketched.shape, trim=False
+        )
+        assert all(r <= m for r, m in zip(tt_sketched.rank, max_rank))
     time_taken = time.perf_counter() - start_time
 
     if error_func is not None:
-- 
2.43.0


From b050f00ce2df825a3465410642c4454330163807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:56 +0000
Subject: [PATCH 47/50] fix: cookie experiments with pairwise final rounding
 failed

---
 scripts/do_cookie.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/do_cookie.py b/scripts/do_cookie.py
index 033db05..ee71768 100644
--- a/scripts/do_cookie.py
+++ b/scripts/do_cookie.py
@@ -67,7 +67,10 @@ def experiment_cookie(
     for rank in final_round_ranks:
         current_time = perf_counter()
         result_rounded = round_tt_sum(
-            result, rank, method=rounding_method_final, eps=None  # type: ignore
+            TensorSum([result]),
+            rank,
+            method=rounding_method_final,
+            eps=None,
         )
         round_timings.append(perf_counter() - current_time)
         true_error = map_sum(result_rounded).error(B, relative=True)
-- 
2.43.0


From 066c56f440c18ad7bb9c776e300576917a6758dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:56 +0000
Subject: [PATCH 48/50] fix: error function of plot_timings failed for zero
 tensors

---
 scripts/plot_timings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/plot_timings.py b/scripts/plot_timings.py
index 4e173f6..f02739b 100644
--- a/scripts/plot_timings.py
+++ b/scripts/plot_timings.py
@@ -63,7 +63,7 @@ def tt_error_func(tt1, tt2):
         tt1 = tt1.to_tt()
     tt2_norm = tt2.norm()
     if tt2_norm == 0:
-        return np.infa
+        return np.inf
     error = tt1.add(-tt2).norm() / tt2_norm
     return error
 
-- 
2.43.0


From 3afe780b46ee7e9a998dbd0ab3116eb82e42125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:56 +0000
Subject: [PATCH 49/50] fix: an interrupted download was taken for the complete
 file

---
 scripts/data_download_util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/data_download_util.py b/scripts/data_download_util.py
index d1f4b7e..f8c881e 100644
--- a/scripts/data_download_util.py
+++ b/scripts/data_download_util.py
@@ -36,4 +36,7 @@ def download_data(url):
     if os.path.isfile(filepath):
         print("File already downloaded")
     else:
-        download_url(url, filepath)
+        # An incomplete download should never be taken for the file
+        temporary = f"{filepath}.tmp"
+        download_url(url, temporary)
+        os.replace(temporary, filepath)
-- 
2.43.0


From 2992de1756e588a95fe80e657d04408b9910757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:56 +0000
Subject: [PATCH 50/50] fix: an interrupted save of a FROSTT tensor made it
 unreadable

---
 scripts/frostt.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scripts/frostt.py b/scripts/frostt.py
index c4f65bc..a3834d1 100644
--- a/scripts/frostt.py
+++ b/scripts/frostt.py
@@ -81,9 +81,13 @@ def get_frostt_tensor(file_url, nnz, shape):
         indices = tensor.indices
         entries = tensor.entries
         print("Saving processed file")
-        np.savez_compressed(
-            npzpath, indices=indices, entries=entries, shape=shape
-        )
+        # Never leave a partially written file behind
+        temporary = f"{npzpath}.tmp"
+        with open(temporary, "wb") as f:
+            np.savez_compressed(
+                f, indices=indices, entries=entries, shape=shape
+            )
+        os.replace(temporary, npzpath)
         print("Done!")
         return tensor
 
-- 
2.43.0

