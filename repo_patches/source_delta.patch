From 3210d11161e50c22e52fadee98e1d517eab429fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 01/43] fix: scaling a sketch raised UnboundLocalError

---
 tt_sketch/sketch_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch_container.py b/tt_sketch/sketch_container.py
index fed61f3..9bc3c89 100644
--- a/tt_sketch/sketch_container.py
+++ b/tt_sketch/sketch_container.py
@@ -75,7 +75,7 @@ class SketchContainer:
         return self.__class__(Psi_cores_new, Omega_mats_new)
 
     def __mul__(self, other: float) -> SketchContainer:
-        new_Psi_cores = [Psi * other for Psi in new_Psi_cores]
+        new_Psi_cores = [Psi * other for Psi in self.Psi_cores]
         new_Omega_mats = [Omega * other for Omega in self.Omega_mats]
         return self.__class__(new_Psi_cores, new_Omega_mats)
 
-- 
2.43.0


From 31ca33b990f596431fa875aa1dc3fa194ba7eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 02/43] fix: seeded random numbers depended on the number of
 cores

---
 tt_sketch/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 22d33a7..0789485 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -180,8 +180,14 @@ class MultithreadedRNG:
     Multithreaded standard normal random number generator.
 
     Copy pasta from numpy docs
+
+    The numbers are drawn in a fixed number of blocks, each with its own random
+    stream, so that they only depend on the seed and not on the number of
+    threads (i.e. not on the machine).
     """
 
+    num_blocks = 8
+
     def __init__(self, shape, seed=None, threads=None):
         if threads is None:
             threads = multiprocessing.cpu_count()
@@ -189,14 +195,14 @@ class MultithreadedRNG:
 
         seq = np.random.SeedSequence(seed)
         self._random_generators = [
-            np.random.default_rng(s) for s in seq.spawn(threads)
+            np.random.default_rng(s) for s in seq.spawn(self.num_blocks)
         ]
 
         self.shape = shape
         n = np.prod(shape)
         self.executor = concurrent.futures.ThreadPoolExecutor(threads)
         self.values = np.empty(n)
-        self.step = np.ceil(n / threads).astype(np.int_)
+        self.step = np.ceil(n / self.num_blocks).astype(np.int_)
         self.fill()
 
     def fill(self):
@@ -204,7 +210,7 @@ class MultithreadedRNG:
             random_state.standard_normal(out=out[first:last])
 
         futures = {}
-        for i in range(self.threads):
+        for i in range(self.num_blocks):
             args = (
                 _fill,
                 self._random_generators[i],
-- 
2.43.0


From b6aa97f061f63c9305bd478e352ef38d661a9d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 03/43] fix: failures of the random number threads were ignored

---
 tt_sketch/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 0789485..735e76f 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -220,6 +220,8 @@ class MultithreadedRNG:
             )
             futures[self.executor.submit(*args)] = i
         concurrent.futures.wait(futures)
+        for future in futures:
+            future.result()  # raise exceptions of the workers, if any
         self.values = self.values.reshape(self.shape)
 
     # def __del__(self):
-- 
2.43.0


From 283f324c99a174db6a25e8969f951824e63a6cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 04/43] fix: seeded sketches depended on the hash randomisation
 of the process

---
 tt_sketch/sketch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index 4a79abf..107ce33 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 
 from dataclasses import dataclass
 from typing import Dict, List, Optional, Sequence, Tuple, Type
+from zlib import crc32
 
 import numpy as np
 import numpy.typing as npt
@@ -129,7 +130,7 @@ def orthogonal_sketch(
             else:
                 right_drm_type = TensorTrainDRM
         right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
-        right_seed = np.mod(seed + hash(str(d)), 2**32)
+        right_seed = np.mod(seed + crc32(str(d).encode()), 2**32)
         right_drm = right_drm_type(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
@@ -207,7 +208,7 @@ def stream_sketch(
         right_rank = process_tt_rank(
             right_rank, tensor.shape, trim=left_rank_bigger
         )
-        right_seed = np.mod(seed + hash(str(d)), 2**32)
+        right_seed = np.mod(seed + crc32(str(d).encode()), 2**32)
         right_drm = right_drm_type(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
-- 
2.43.0


From b4fe0319293a8afe1d1d8b5f84a262b5c8cbac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 05/43] fix: DenseGaussianDRM reseeded the global random
 generator

Besides rewinding the random numbers of the caller, this made seeded maps
depend on other threads, made slices of an unseeded map differ from the map,
and rejected seeds outside of [0, 2**32).
---
 tt_sketch/drm/dense_gaussian_drm.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tt_sketch/drm/dense_gaussian_drm.py b/tt_sketch/drm/dense_gaussian_drm.py
index 6d637f1..8b332d9 100644
--- a/tt_sketch/drm/dense_gaussian_drm.py
+++ b/tt_sketch/drm/dense_gaussian_drm.py
@@ -47,12 +47,15 @@ class DenseGaussianDRM(
             dim_prod *= n
 
             # TODO: make this correctly work with rank_increase and random_normal
-            np.random.seed(seed)
-            seed_offset = hash(np.random.uniform(0, dim_prod))
-            np.random.seed(np.mod(self.seed + seed_offset, 2**32 - 1))
+            # Use local generators; the global one belongs to the caller.
+            rng = np.random.RandomState(self.seed)
+            seed_offset = hash(rng.uniform(0, dim_prod))
+            rng = np.random.RandomState(
+                np.mod(self.seed + seed_offset, 2**32 - 1)
+            )
 
             # sketching_mat = random_normal(shape=(r, dim_prod), seed=seed)
-            sketching_mat = np.random.normal(size=(r, dim_prod))
+            sketching_mat = rng.normal(size=(r, dim_prod))
             sketching_mat = sketching_mat[self.rank_min[mu] : self.rank_max[mu]]
             self.sketching_mats.append(sketching_mat)
 
-- 
2.43.0


From e3aa8097ede8366a2035f9d897b3b3bd3f49a8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 06/43] fix: SparseTensor.random reseeded the global random
 generator

---
 tt_sketch/tensor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 75fb187..89d4e75 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -262,9 +262,11 @@ class SparseTensor(Tensor):
         Generates a random sparse tensor with `nnz` non-zero gaussian entries
         """
         if seed is not None:
-            np.random.seed(seed)
+            rng = np.random.RandomState(seed)
+        else:
+            rng = np.random
         total_size = np.prod(shape)
-        indices_flat = np.random.choice(total_size, size=nnz, replace=False)
+        indices_flat = rng.choice(total_size, size=nnz, replace=False)
         indices = np.unravel_index(indices_flat, shape)
         entries = random_normal(shape=(nnz,), seed=seed)
         return cls(shape, indices, entries)
-- 
2.43.0


From 71e671ff3bed939cc5a9097f39446fbee8890024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 07/43] fix: transposed DRM kept the shape of the original

This made it impossible to update a transposed sketch.
---
 tt_sketch/drm_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tt_sketch/drm_base.py b/tt_sketch/drm_base.py
index 8d35da0..6b27303 100644
--- a/tt_sketch/drm_base.py
+++ b/tt_sketch/drm_base.py
@@ -66,6 +66,7 @@ class DRM(ABC):
     def T(self):
         transposed = deepcopy(self)
         transposed.transpose = not self.transpose
+        transposed.shape = transposed.shape[::-1]
         transposed.true_rank = transposed.true_rank[::-1]
         transposed.rank_min = transposed.rank_min[::-1]
         transposed.rank_max = transposed.rank_max[::-1]
-- 
2.43.0


From c450764e919f32cd48fa188eb1ded2b2fd125197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 08/43] fix: slices of SparseSignDRM ignored the number of
 nonzeros

Also take the number of nonzeros of a right DRM in the order of the modes,
like its rank; with the wrong order entries were written out of bounds.
---
 tt_sketch/drm/sparse_sign_drm.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/tt_sketch/drm/sparse_sign_drm.py b/tt_sketch/drm/sparse_sign_drm.py
index d38634e..ca0936e 100644
--- a/tt_sketch/drm/sparse_sign_drm.py
+++ b/tt_sketch/drm/sparse_sign_drm.py
@@ -2,7 +2,7 @@ from typing import Optional, Tuple, Union
 
 import numpy as np
 from tt_sketch.drm.fast_lazy_gaussian import inds_to_sparse_sign  # type: ignore
-from tt_sketch.drm_base import CanSlice, handle_transpose
+from tt_sketch.drm_base import DRM, CanSlice, handle_transpose
 from tt_sketch.sketching_methods.abstract_methods import CansketchSparse
 from tt_sketch.tensor import SparseTensor
 from tt_sketch.utils import ArrayGenerator
@@ -28,8 +28,25 @@ class SparseSignDRM(CansketchSparse, CanSlice):
     ) -> None:
         super().__init__(rank, shape, transpose, seed=seed, **kwargs)
         if num_non_zero_per_row is None:
-            num_non_zero_per_row = self.true_rank
-        self.nnz = num_non_zero_per_row
+            self.nnz = self.true_rank
+        elif transpose:
+            # Given in the order of the modes, like the rank
+            self.nnz = tuple(num_non_zero_per_row)[::-1]
+        else:
+            self.nnz = tuple(num_non_zero_per_row)
+
+    @property
+    def T(self):
+        transposed = super().T
+        transposed.nnz = transposed.nnz[::-1]
+        return transposed
+
+    def slice(
+        self, start_rank: Tuple[int, ...], end_rank: Tuple[int, ...]
+    ) -> DRM:
+        sliced = super().slice(start_rank, end_rank)
+        sliced.nnz = self.nnz
+        return sliced
 
     @handle_transpose
     def sketch_sparse(self, tensor: SparseTensor) -> ArrayGenerator:
-- 
2.43.0


From 88902dea6df629c27a5129ac68899ae5e31cafac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 09/43] fix: sliced TensorTrainDRM could not sketch dense and
 Tucker tensors

---
 tt_sketch/drm/tensor_train_drm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tt_sketch/drm/tensor_train_drm.py b/tt_sketch/drm/tensor_train_drm.py
index 985ce5c..f6b23c6 100644
--- a/tt_sketch/drm/tensor_train_drm.py
+++ b/tt_sketch/drm/tensor_train_drm.py
@@ -110,7 +110,7 @@ class TensorTrainDRM(
     def sketch_dense(self, tensor: DenseTensor) -> ArrayGenerator:
         n_dims = len(self.shape)
         partial_contraction = self.cores[0].reshape(-1, self.cores[0].shape[-1])
-        yield partial_contraction.T
+        yield partial_contraction.T[self.rank_min[0] : self.rank_max[0]]
         for mu in range(1, n_dims - 1):
             core = self.cores[mu]
             partial_contraction = np.einsum(
@@ -119,7 +119,7 @@ class TensorTrainDRM(
             partial_contraction = partial_contraction.reshape(
                 -1, partial_contraction.shape[-1]
             )
-            yield partial_contraction.T
+            yield partial_contraction.T[self.rank_min[mu] : self.rank_max[mu]]
 
     @handle_transpose
     def sketch_tucker(self, tensor: TuckerTensor) -> ArrayGenerator:
@@ -128,9 +128,9 @@ class TensorTrainDRM(
             "ijk,jl->ilk", self.cores[0], tensor.factors[0].T
         )
         partial_contraction = partial_contraction.reshape(
-            tensor.rank[0], self.rank[0]
+            tensor.rank[0], self.cores[0].shape[-1]
         )
-        yield partial_contraction
+        yield partial_contraction[:, self.rank_min[0] : self.rank_max[0]]
 
         for mu in range(1, n_dims - 1):
             core_reduced = np.einsum(
@@ -142,4 +142,4 @@ class TensorTrainDRM(
             partial_contraction = partial_contraction.reshape(
                 -1, partial_contraction.shape[-1]
             )
-            yield partial_contraction
+            yield partial_contraction[:, self.rank_min[mu] : self.rank_max[mu]]
-- 
2.43.0


From 6967eda3a0a044d5d182f53bcece504ebead32ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 10/43] fix: dense tensors were sketched with a different right
 map

The columns of right maps are ordered from right to left, but were applied to
the modes from left to right. Therefore the sketch of a dense tensor could not
be combined with sketches of other formats using the same DRMs.
---
 tt_sketch/sketching_methods/dense_sketch.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/sketching_methods/dense_sketch.py b/tt_sketch/sketching_methods/dense_sketch.py
index 7d04138..6cfa083 100644
--- a/tt_sketch/sketching_methods/dense_sketch.py
+++ b/tt_sketch/sketching_methods/dense_sketch.py
@@ -4,6 +4,18 @@ from tt_sketch.tensor import DenseTensor
 from tt_sketch.utils import matricize
 
 
+def _reverse_right_modes(
+    tensor_data: npt.NDArray, num_left: int
+) -> npt.NDArray:
+    """Reverse the order of all but the first ``num_left`` modes.
+
+    The columns of right sketching matrices are ordered like the transpose of
+    the tensor, i.e. they run over the right modes from right to left."""
+    ndim = len(tensor_data.shape)
+    perm = tuple(range(num_left)) + tuple(range(num_left, ndim))[::-1]
+    return np.transpose(tensor_data, perm)
+
+
 def sketch_omega_dense(
     left_sketch: npt.NDArray,
     rigth_sketch: np.ndarray,
@@ -12,7 +24,8 @@ def sketch_omega_dense(
     mu: int,
     **kwargs
 ) -> npt.NDArray:
-    X_mat = matricize(tensor.data, range(mu + 1), mat_shape=True)
+    tensor_data = _reverse_right_modes(tensor.data, mu + 1)
+    X_mat = matricize(tensor_data, range(mu + 1), mat_shape=True)
     return left_sketch @ X_mat @ rigth_sketch.T
 
 
@@ -26,6 +39,8 @@ def sketch_psi_dense(
 ) -> npt.NDArray:
     ndim = tensor.ndim
     tensor_data = tensor.data
+    if right_sketch is not None:
+        tensor_data = _reverse_right_modes(tensor_data, mu + 1)
     if left_sketch is None:
         tensor_mat = matricize(tensor_data, 0, mat_shape=True)
         Psi = tensor_mat @ right_sketch.T
-- 
2.43.0


From c5add9e38d141598cddda930ded30e5c4f608e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 11/43] fix: multiplying an MPO by a scalar modified the MPO

---
 tt_sketch/tt_gmres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index f02ae69..d209ad5 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -129,7 +129,7 @@ class MPO(Tensor, TTLinearMap):
         return cls(cores)
 
     def __mul__(self, other: float) -> MPO:
-        new_cores = self.cores
+        new_cores = list(self.cores)
         new_cores[0] = new_cores[0] * other
         return self.__class__(new_cores)
 
-- 
2.43.0


From 92ac790b016116b29b03e5102cf9fff1b6059774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 12/43] fix: CPTensor.size was a method instead of a property

---
 tt_sketch/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 89d4e75..ec97abf 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -687,6 +687,7 @@ class CPTensor(Tensor):
         self.rank = cores[0].shape[1]
         self.shape = tuple(C.shape[0] for C in cores)
 
+    @property
     def size(self) -> int:
         return sum(C.size for C in self.cores)
 
-- 
2.43.0


From e49646c6096bbd5833a5957087341bb61e352b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 13/43] fix: pairwise rounding did not round a single summand

---
 tt_sketch/tt_gmres.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index d209ad5..98c03e4 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -281,6 +281,8 @@ def round_tt_sum(
         return tt.round(eps, max_rank)
     elif method == "pairwise":
         tt = tt_sum.tensors[0]
+        if len(tt_sum.tensors) == 1:
+            tt = tt.round(eps=eps, max_rank=max_rank)
         for t in tt_sum.tensors[1:]:
             tt = tt.add(t).round(eps=eps, max_rank=max_rank)
     elif method == "sketch":
-- 
2.43.0


From c60b7dffd22fbb30f90b1fabcc3229cd80ef26ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 14/43] fix: core and first factor of random Tucker tensors
 used the same numbers

---
 tt_sketch/tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index ec97abf..ebf69e8 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -807,10 +807,9 @@ class TuckerTensor(Tensor):
         rank_tuple = tuple(min(r1, r2) for r1, r2 in zip(rank_tuple, shape))
 
         seq = SeedSequence(seed)
-        core_seed = seq.generate_state(1)[0]
+        core_seed, *seeds = seq.generate_state(d + 1)
         core = random_normal(shape=rank_tuple, seed=core_seed)
         factors = []
-        seeds = seq.generate_state(d)
         for r, n, seed in zip(rank_tuple, shape, seeds):
             U = random_normal(shape=(r, n), seed=seed)
             U = np.linalg.qr(U.T)[0].T
-- 
2.43.0


From 013536a1f29b1ea3500f893212251daefc4dcc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 15/43] fix: entries of SparseTensor were cached beyond their
 modification

---
 tt_sketch/tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index ebf69e8..4b5db97 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -4,7 +4,6 @@ from __future__ import annotations
 from abc import ABC, abstractmethod, abstractproperty
 from copy import deepcopy
 from dataclasses import dataclass
-from functools import cached_property
 from typing import (
     Iterable,
     List,
@@ -287,7 +286,7 @@ class SparseTensor(Tensor):
             out[i] = dic.get(ind, 0.0)
         return out
 
-    @cached_property
+    @property
     def dict(self) -> Dict[int, float]:
         dense_indices = np.ravel_multi_index(self.indices, self.shape)
         return {i: v for i, v in zip(dense_indices, self.entries)}
-- 
2.43.0


From 3e60320913c630407b5a065793df9cdbd9da4da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 16/43] fix: lazy random maps overflowed for index spaces of
 size 2**31 and more

The strides were truncated to 32 bits, so that different positions got the
same random numbers; later modes could even be ignored altogether.
---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index a80f2d4..3217552 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -62,7 +62,7 @@ cpdef double[:] _inds_to_rand_double(
     cdef int n_dim = len(shape)
     cdef int rank = rank_max - rank_min
 
-    cdef int prod = shape[0]
+    cdef uint64 prod = shape[0]
     cdef int i
     cdef int j
     for i in range(1,n_dim):
-- 
2.43.0


From b764039e29efb9424daa32fe83d11d84444baca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 17/43] fix: hmt_sketch raised NameError for return_drm=True

---
 tt_sketch/sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index 107ce33..ac6b385 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -74,7 +74,7 @@ def hmt_sketch(
 
     sketched = TensorTrain(sketch.Psi_cores)
     if return_drm:  # this really is mostly for testing purposes
-        return sketched, drm, right_drm  # type: ignore
+        return sketched, drm  # type: ignore
     else:
         return sketched
 
-- 
2.43.0


From 5824c5a9062b3f9e5d049f122e7523b490b79a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 18/43] fix: power_decay_tensor raised NameError

---
 tt_sketch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 735e76f..27729c2 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -46,7 +46,7 @@ def power_decay_tensor(
     unfolding decay with a power law."""
     # if seed is not None:
     #     np.random.seed(np.mod(seed, 2**32 - 1))
-    seq = SeedSequence(seed)
+    seq = np.random.SeedSequence(seed)
     A_seed = seq.generate_state(1)[0]
     A = random_normal(shape=shape, seed=A_seed)
     for mode in range(len(A.shape)):
-- 
2.43.0


From d099999a23d056ad3c7f8b73fce7774439f1850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 19/43] fix: singular values of over-ranked tensor trains could
 not be computed

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 4b5db97..3c93ef8 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -500,7 +500,7 @@ class TensorTrain(Tensor):
             else:
                 C_mat = C.reshape(C.shape[0] * C.shape[1], C.shape[2])
 
-            U, S, _ = np.linalg.svd(C_mat)
+            U, S, _ = np.linalg.svd(C_mat, full_matrices=False)
             svdvals.append(S)
         svdvals = svdvals[::-1]
         return svdvals
-- 
2.43.0


From 4dcfeaf5b5b17414da8b029547dbb7fe5081872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 20/43] fix: increase_rank checked for the wrong capability of
 the DRM

---
 tt_sketch/sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index ac6b385..2e7be05 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -317,7 +317,7 @@ class SketchedTensorTrain(Tensor):
             new_right_rank, tensor.shape, trim=False
         )
         for drm in (self.left_drm, self.right_drm):
-            if not isinstance(drm, CanSlice):
+            if not isinstance(drm, CanIncreaseRank):
                 drm_name = drm.__class__.__name__
                 raise ValueError(
                     f"Increasing rank is not supported for DRM {drm_name}"
-- 
2.43.0


From 01597ed9adc96f519369dd271c3cdf1ca3d1bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 21/43] fix: seeded HMT and orthogonal sketches advanced the
 global random generator

---
 tt_sketch/sketch_dispatch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/sketch_dispatch.py b/tt_sketch/sketch_dispatch.py
index 40f937e..42e9094 100644
--- a/tt_sketch/sketch_dispatch.py
+++ b/tt_sketch/sketch_dispatch.py
@@ -179,7 +179,11 @@ class OrthogTTDRM:
 
     def __init__(self, rank, tensor):
         self.rank = rank
-        self.drm = TensorTrainDRM(rank, tensor.shape, transpose=False, cores=[])
+        # The cores are given, so the seed is irrelevant; it is passed such that
+        # no random numbers are drawn from the global generator.
+        self.drm = TensorTrainDRM(
+            rank, tensor.shape, transpose=False, seed=0, cores=[]
+        )
         self.generator = None
         self.tensor = tensor
         self.sketch_method = get_sketch_method(tensor, self.drm)
-- 
2.43.0


From 5b5e0fdc60dd43a23e75fa58b6d8d8eeecf6d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 22/43] fix: TT-GMRES compared the squared residual norm to the
 tolerance

It therefore stopped as soon as the residual was about the square root of the
tolerance. It also failed if the least squares problem was rank deficient.
---
 tt_sketch/tt_gmres.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index 98c03e4..d24b5c4 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -403,9 +403,10 @@ def tt_sum_gmres(
         H_red = H_matrix[: j + 2, : j + 1]
         e1 = np.zeros(j + 2)
         e1[0] = beta
-        y, (residual_norm,), _, _ = np.linalg.lstsq(H_red, e1, rcond=None)
+        y, _, _, _ = np.linalg.lstsq(H_red, e1, rcond=None)
+        residual_norm = np.linalg.norm(e1 - H_red @ y)
         history["step_time_with_res_norm"].append(perf_counter() - current_time)
-        history["residual_norm"].append(np.sqrt(residual_norm) / b_norm)
+        history["residual_norm"].append(residual_norm / b_norm)
         history["rank"].append(w_rounded.rank)
         history["w_norm"].append(H_matrix[j + 1, j])
         history["delta"].append(delta)
-- 
2.43.0


From c49ec83a389437924344fd210ff6ef29a8833e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 23/43] fix: experiment results were lost if saving failed or
 was interrupted

---
 scripts/experiment_base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index c5343e9..3fbbd30 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -1,3 +1,4 @@
+import os
 import time
 from functools import reduce
 from os.path import isfile
@@ -35,7 +36,11 @@ class Experiment:
         return cls(filename, data)
 
     def save(self):
-        self.data.to_csv(self.filename)
+        # Never write to the actual file directly. If saving fails or is
+        # interrupted, the results saved before should still be there.
+        temp_filename = f"{self.filename}.tmp"
+        self.data.to_csv(temp_filename)
+        os.replace(temp_filename, self.filename)
 
     def check_experiment_done(self, conds):
         masks = []
-- 
2.43.0


From bf4d7b2a138bab712d9c55369a387f0d08f50157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 24/43] fix: experiments counted as done if saving their result
 failed

---
 scripts/experiment_base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index 3fbbd30..c4c338d 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -89,9 +89,15 @@ class Experiment:
         # row["error"] = result
 
         row_df = pd.DataFrame([row.values()], columns=row.keys())
+        previous_data = self.data
         self.data = pd.concat([self.data, row_df], ignore_index=True)
 
-        self.save()
+        try:
+            self.save()
+        except BaseException:
+            # Not recorded; next time the experiment should be done again
+            self.data = previous_data
+            raise
 
 
 def experiment_stream_sketch(
-- 
2.43.0


From a08ab33b1691a27f7775dfa58b557c624ba894f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 25/43] fix: every restart added a column to the experiment
 results

---
 scripts/experiment_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index c4c338d..57de8f4 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -39,7 +39,7 @@ class Experiment:
         # Never write to the actual file directly. If saving fails or is
         # interrupted, the results saved before should still be there.
         temp_filename = f"{self.filename}.tmp"
-        self.data.to_csv(temp_filename)
+        self.data.to_csv(temp_filename, index=False)
         os.replace(temp_filename, self.filename)
 
     def check_experiment_done(self, conds):
-- 
2.43.0


From 40e483127bf0ea5ad1f91b755b5193bf691df7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 26/43] fix: experiments with float or None parameters were
 repeated after a restart

---
 scripts/experiment_base.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index 57de8f4..df67831 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -24,7 +24,7 @@ class Experiment:
         self.filename = filename
         if data is None:
             if isfile(filename) and not force_overwrite:
-                data = pd.read_csv(filename)
+                data = self._read(filename)
             else:
                 data = pd.DataFrame(columns=["name", "error", "time_taken"])
 
@@ -32,9 +32,20 @@ class Experiment:
 
     @classmethod
     def load(cls, filename):
-        data = pd.read_csv(filename)
+        data = cls._read(filename)
         return cls(filename, data)
 
+    @staticmethod
+    def _read(filename):
+        # Recover exactly the values that were saved; both floating point
+        # numbers and strings such as "None".
+        return pd.read_csv(
+            filename,
+            float_precision="round_trip",
+            keep_default_na=False,
+            na_values=[""],
+        )
+
     def save(self):
         # Never write to the actual file directly. If saving fails or is
         # interrupted, the results saved before should still be there.
-- 
2.43.0


From 0dd16a9850cdd0dfe263f7e97b7d6c5452e14306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 27/43] fix: experiments with parameters of mixed type were
 repeated after a restart

---
 scripts/experiment_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index df67831..4aeff6c 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -57,7 +57,11 @@ class Experiment:
         masks = []
         for column, value in conds.items():
             try:
-                masks.append(self.data[column] == value)
+                recorded = self.data[column]
+                # Columns of mixed type are read from file as strings
+                masks.append(
+                    (recorded == value) | (recorded.astype(str) == str(value))
+                )
             except KeyError:
                 return False
         mask = reduce(lambda x, y: x & y, masks)
-- 
2.43.0


From 683c52311c98a0c7c389d5bfb9152fa3102aac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 28/43] fix: partial downloads were treated as complete files

---
 scripts/data_download_util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/data_download_util.py b/scripts/data_download_util.py
index d1f4b7e..2fb16af 100644
--- a/scripts/data_download_util.py
+++ b/scripts/data_download_util.py
@@ -20,9 +20,12 @@ def download_url(url, output_path):
         miniters=1,
         desc="downloading " + url.split("/")[-1],
     ) as t:
+        # Only complete downloads should end up at output_path
+        partial_path = output_path + ".part"
         urllib.request.urlretrieve(
-            url, filename=output_path, reporthook=t.update_to
+            url, filename=partial_path, reporthook=t.update_to
         )
+        os.replace(partial_path, output_path)
 
 
 def download_data(url):
-- 
2.43.0


From a01de72e58f8f269421a013a73db1e1382f9977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 29/43] fix: TT-GMRES failed if the initial value is an exact
 solution

---
 tt_sketch/tt_gmres.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index d24b5c4..73501f9 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -362,6 +362,21 @@ def tt_sum_gmres(
     )
     residual_norm = residual_rounded.norm()
     beta = residual_norm
+    if residual_norm <= tolerance * b_norm:
+        # The initial value is already a solution; there is nothing to do, and
+        # the residual can't be normalized if it's zero.
+        history_x0: Dict[str, Any] = defaultdict(list)
+        history_x0["rank"].append(residual_rounded.rank)
+        history_x0["residual_norm"].append(residual_norm / b_norm)
+        history_x0["step_time"].append(perf_counter() - initial_time)
+        result_rounded = round_tt_sum(
+            TensorSum([x0]),
+            eps=None,
+            max_rank=final_round_rank,
+            method=rounding_method_final,
+        )
+        history_x0["total_time"] = perf_counter() - initial_time
+        return result_rounded, history_x0
     nu_list: List[TensorTrain] = [residual_rounded / beta]
     H_matrix = np.zeros((maxiter + 1, maxiter))
 
-- 
2.43.0


From 00396a5cfd72ab5388e348dba0bcdefdba57d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 30/43] fix: transposed DRMs with non-constant rank applied the
 ranks in wrong order

DRMs store their ranks in the order in which the tensor is contracted, but the
transpose reversed them, so adding to a transposed sketch failed or used wrong
slices unless the rank was constant.
---
 tt_sketch/drm/sparse_sign_drm.py |  6 ------
 tt_sketch/drm_base.py            |  7 +++----
 tt_sketch/sketch_dispatch.py     | 13 ++++++++-----
 3 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/tt_sketch/drm/sparse_sign_drm.py b/tt_sketch/drm/sparse_sign_drm.py
index ca0936e..8f6e792 100644
--- a/tt_sketch/drm/sparse_sign_drm.py
+++ b/tt_sketch/drm/sparse_sign_drm.py
@@ -35,12 +35,6 @@ class SparseSignDRM(CansketchSparse, CanSlice):
         else:
             self.nnz = tuple(num_non_zero_per_row)
 
-    @property
-    def T(self):
-        transposed = super().T
-        transposed.nnz = transposed.nnz[::-1]
-        return transposed
-
     def slice(
         self, start_rank: Tuple[int, ...], end_rank: Tuple[int, ...]
     ) -> DRM:
diff --git a/tt_sketch/drm_base.py b/tt_sketch/drm_base.py
index 6b27303..53b3ba9 100644
--- a/tt_sketch/drm_base.py
+++ b/tt_sketch/drm_base.py
@@ -67,10 +67,9 @@ class DRM(ABC):
         transposed = deepcopy(self)
         transposed.transpose = not self.transpose
         transposed.shape = transposed.shape[::-1]
-        transposed.true_rank = transposed.true_rank[::-1]
-        transposed.rank_min = transposed.rank_min[::-1]
-        transposed.rank_max = transposed.rank_max[::-1]
-        transposed.rank = transposed.rank[::-1]
+        # The ranks are stored in the order in which the tensor is contracted.
+        # This order is the same for the transpose of the DRM, like all the data
+        # subclasses store per mode.
         return transposed
 
     def __repr__(self) -> str:
diff --git a/tt_sketch/sketch_dispatch.py b/tt_sketch/sketch_dispatch.py
index 42e9094..c7d16af 100644
--- a/tt_sketch/sketch_dispatch.py
+++ b/tt_sketch/sketch_dispatch.py
@@ -221,9 +221,12 @@ def general_sketch(
         left_contractions = list(get_sketch_method(tensor, left_drm)(tensor))
     right_contractions = list(get_sketch_method(tensor, right_drm)(tensor))
 
+    right_rank = right_drm.rank[::-1]
     if left_drm is None:
         # This is just required for shape information in the case of HMT
-        left_drm = right_drm.T
+        left_rank = right_rank
+    else:
+        left_rank = left_drm.rank
 
     Psi_cores: ArrayList = []
 
@@ -232,7 +235,7 @@ def general_sketch(
     if method != SketchMethod.hmt:
         omega_method = OMEGA_METHODS[type(tensor)]
         for mu in range(n_dims - 1):
-            omega_shape = (left_drm.rank[mu], right_drm.rank[::-1][mu])
+            omega_shape = (left_rank[mu], right_rank[mu])
             Omega_mats.append(
                 omega_method(
                     left_contractions[mu],
@@ -244,7 +247,7 @@ def general_sketch(
             )
 
     if method in (SketchMethod.hmt, SketchMethod.orthogonal):
-        left_psi_drm = OrthogTTDRM(left_drm.rank, tensor)
+        left_psi_drm = OrthogTTDRM(left_rank, tensor)
 
     # Compute Psi cores
     psi_method = PSI_METHODS[type(tensor)]
@@ -255,13 +258,13 @@ def general_sketch(
                 left_sketch = next(left_psi_drm)
             else:
                 left_sketch = left_contractions[mu - 1]
-            r1 = left_drm.rank[mu - 1]
+            r1 = left_rank[mu - 1]
         else:
             left_sketch = None
             r1 = 1
         if mu < n_dims - 1:
             right_sketch = right_contractions[mu]
-            r2 = right_drm.rank[::-1][mu]
+            r2 = right_rank[mu]
         else:
             right_sketch = None
             r2 = 1
-- 
2.43.0


From b8b68589760513d4e2522fd58daf3fc06e9adfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 31/43] fix: Tucker tensors were sketched with a different
 right map

Right sketches run over the modes of the core from right to left, but were
applied to the core from left to right. Therefore the sketch of a Tucker tensor
could not be combined with sketches of other formats using the same DRMs.
---
 tt_sketch/sketching_methods/tucker_sketch.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/sketching_methods/tucker_sketch.py b/tt_sketch/sketching_methods/tucker_sketch.py
index 96f4645..0f72375 100644
--- a/tt_sketch/sketching_methods/tucker_sketch.py
+++ b/tt_sketch/sketching_methods/tucker_sketch.py
@@ -6,6 +6,15 @@ from tt_sketch.tensor import TuckerTensor
 from tt_sketch.utils import matricize
 
 
+def _reverse_right_modes(core: npt.NDArray, num_left: int) -> npt.NDArray:
+    """Reverse the order of all but the first ``num_left`` modes.
+
+    The rows of right sketches are ordered like the transpose of the core, i.e.
+    they run over the right modes from right to left."""
+    perm = tuple(range(num_left)) + tuple(range(num_left, core.ndim))[::-1]
+    return np.transpose(core, perm)
+
+
 def sketch_omega_tucker(
     left_sketch: npt.NDArray,
     right_sketch: npt.NDArray,
@@ -15,7 +24,8 @@ def sketch_omega_tucker(
     **kwargs
 ):
     mode = tuple(range(mu + 1))
-    core_mat = matricize(tensor.core, mode, mat_shape=True)
+    core = _reverse_right_modes(tensor.core, mu + 1)
+    core_mat = matricize(core, mode, mat_shape=True)
     return left_sketch.T @ core_mat @ right_sketch
 
 
@@ -29,7 +39,8 @@ def sketch_psi_tucker(
 ):
     left_dim = left_sketch.shape[0] if left_sketch is not None else 1
     right_dim = right_sketch.shape[0] if right_sketch is not None else 1
-    core_ord3 = tensor.core.reshape(left_dim, tensor.rank[mu], right_dim)
+    core = _reverse_right_modes(tensor.core, mu + 1)
+    core_ord3 = core.reshape(left_dim, tensor.rank[mu], right_dim)
     if left_sketch is None:
         Psi = np.einsum("ijk,kl->ijl", core_ord3, right_sketch)  # type: ignore
     elif right_sketch is None:
-- 
2.43.0


From 22e93dc67c6106c4227542ea7835f41ccce9047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 32/43] fix: adding tensor trains of order one gave a tensor
 train of order two

---
 tt_sketch/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 3c93ef8..19e6e3d 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -525,6 +525,8 @@ class TensorTrain(Tensor):
         Note, this does not overload the addition operator ``+``; the addition
         operator instead returns a lazy ``TensorSum`` object.
         """
+        if self.ndim == 1:
+            return self.__class__([self.cores[0] + other.cores[0]])
         new_cores = [np.concatenate((self.cores[0], other.cores[0]), axis=2)]
         for C1, C2 in zip(self.cores[1:-1], other.cores[1:-1]):
             r1, d, r2 = C1.shape
-- 
2.43.0


From 87c9d29391c076494cff2fbd77ecd067291ae44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 33/43] fix: fast error between two zero tensors was NaN

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 19e6e3d..2d79d8d 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -68,7 +68,7 @@ class Tensor(ABC):
             self_norm = self.norm()
             dot = self.dot(other)
             norm_sum = self_norm**2 + other_norm**2
-            error = np.sqrt(norm_sum) * np.sqrt(np.abs(1 - 2 * dot / norm_sum))
+            error = np.sqrt(np.abs(norm_sum - 2 * dot))
         else:
             error = np.linalg.norm(self.to_numpy() - other.to_numpy())
         if relative:
-- 
2.43.0


From 0aec6a96733a21a27e3b5d3eddacca50ff2cfc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 34/43] fix: empty tensor sums could not be transposed, scaled
 or added

---
 tt_sketch/tensor.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 2d79d8d..8805f71 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -631,6 +631,8 @@ class TensorSum(Generic[TType], Tensor):
     @property
     def T(self) -> TensorSum:
         new_tensors: List[TType] = [X.T for X in self.tensors]
+        if len(new_tensors) == 0:
+            return self.__class__(new_tensors, shape=self.shape[::-1])
         return self.__class__(new_tensors)
 
     def to_numpy(self) -> npt.NDArray[np.float64]:
@@ -641,7 +643,9 @@ class TensorSum(Generic[TType], Tensor):
 
     def __add__(self, other: TType) -> TensorSum:
         if isinstance(other, TensorSum):
-            return self.__class__(self.tensors + other.tensors)
+            return self.__class__(
+                self.tensors + other.tensors, shape=self.shape
+            )
         else:
             return self.__class__(self.tensors + [other])
 
@@ -664,11 +668,12 @@ class TensorSum(Generic[TType], Tensor):
 
     def __mul__(self, other: Union[float, Iterable[float]]) -> TensorSum:
         try:
-            return self.__class__(
-                [X * c for X, c in zip(self.tensors, other, strict=True)]
-            )
+            new_tensors = [
+                X * c for X, c in zip(self.tensors, other, strict=True)
+            ]
         except TypeError:
-            return self.__class__([X * other for X in self.tensors])
+            new_tensors = [X * other for X in self.tensors]
+        return self.__class__(new_tensors, shape=self.shape)
 
     def dot(self, other: Tensor, reverse=False) -> float:
         return sum(X.dot(other, reverse) for X in self.tensors)
-- 
2.43.0


From d057e62f360b99c2dbe35231128f0289b287240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 35/43] fix: sums of MPOs could not be converted to dense
 arrays

---
 tt_sketch/tensor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 8805f71..02a6e4e 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -636,8 +636,11 @@ class TensorSum(Generic[TType], Tensor):
         return self.__class__(new_tensors)
 
     def to_numpy(self) -> npt.NDArray[np.float64]:
-        s = np.zeros(self.shape)
-        for X in self.tensors:
+        if len(self.tensors) == 0:
+            return np.zeros(self.shape)
+        # The dense array of e.g. an MPO has another shape than ``self.shape``
+        s = np.array(self.tensors[0].to_numpy(), dtype=np.float64)
+        for X in self.tensors[1:]:
             s += X.to_numpy()
         return s
 
-- 
2.43.0


From 05940291b02781a9301d2a80d76d58507847e0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 36/43] fix: linear map sums could not be applied to an empty
 sum

---
 tt_sketch/tt_gmres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index 73501f9..c30a927 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -203,7 +203,7 @@ class TTLinearMapSum:
             for tensor in tensor_list:
                 output_list.append(linear_map(tensor))
 
-        return TensorSum(output_list)
+        return TensorSum(output_list, shape=self.out_shape)
 
 
 # def tt_weighted_sum_sketched(
-- 
2.43.0


From be75d9fe15578dd80878c927223c545d15be3424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 37/43] fix: entries of CP tensors with integer and float cores
 could not be looked up

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 02a6e4e..565c495 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -740,7 +740,7 @@ class CPTensor(Tensor):
 
         res = 1
         for C, id in zip(self.cores, idx):
-            res *= C[id]
+            res = res * C[id]
         return np.sum(res, axis=1)
 
     def __repr__(self) -> str:
-- 
2.43.0


From e2528d5476f4b44c233b5f7762dc826fa094c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:56 +0000
Subject: [PATCH 38/43] fix: recorded integer parameters were not recognised in
 columns of mixed type

---
 scripts/experiment_base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index 4aeff6c..2960e5d 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -4,6 +4,7 @@ from functools import reduce
 from os.path import isfile
 from typing import Callable, Dict, Optional, Any
 
+import numpy as np
 import pandas as pd
 from tt_sketch.sketch import stream_sketch, orthogonal_sketch, hmt_sketch
 from tt_sketch.tensor import Tensor, TensorTrain
@@ -58,12 +59,13 @@ class Experiment:
         for column, value in conds.items():
             try:
                 recorded = self.data[column]
-                # Columns of mixed type are read from file as strings
-                masks.append(
-                    (recorded == value) | (recorded.astype(str) == str(value))
-                )
             except KeyError:
                 return False
+            # Columns of mixed type are read from file as strings
+            mask = (recorded == value) | (recorded.astype(str) == str(value))
+            if isinstance(value, (int, np.integer)):  # May have been saved as "1.0"
+                mask |= recorded.astype(str) == str(float(value))
+            masks.append(mask)
         mask = reduce(lambda x, y: x & y, masks)
         return mask.sum() > 0
 
-- 
2.43.0


From b7ac18c3dea81cd0676d6358c0ad9ffc80f335d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:42 +0000
Subject: [PATCH 39/43] fix: simultaneous downloads of the same file spoiled
 each other

---
 scripts/data_download_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/data_download_util.py b/scripts/data_download_util.py
index 2fb16af..f255d0d 100644
--- a/scripts/data_download_util.py
+++ b/scripts/data_download_util.py
@@ -20,8 +20,9 @@ def download_url(url, output_path):
         miniters=1,
         desc="downloading " + url.split("/")[-1],
     ) as t:
-        # Only complete downloads should end up at output_path
-        partial_path = output_path + ".part"
+        # Only complete downloads should end up at output_path, also if several
+        # processes are downloading the same file.
+        partial_path = f"{output_path}.{os.getpid()}.part"
         urllib.request.urlretrieve(
             url, filename=partial_path, reporthook=t.update_to
         )
-- 
2.43.0


From 86a7fc98130d45d522d54c54f6dd1f8ba2b4ee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:19 +0000
Subject: [PATCH 40/43] fix: recognise a finished experiment with a boolean
 stored among numbers and text

---
 scripts/experiment_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index 2960e5d..fa05bed 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -63,8 +63,9 @@ class Experiment:
                 return False
             # Columns of mixed type are read from file as strings
             mask = (recorded == value) | (recorded.astype(str) == str(value))
-            if isinstance(value, (int, np.integer)):  # May have been saved as "1.0"
-                mask |= recorded.astype(str) == str(float(value))
+            if isinstance(value, (int, np.integer, np.bool_)):
+                # May have been saved as "1.0", or "1" for a boolean
+                mask |= recorded.astype(str).isin([str(int(value)), str(float(value))])
             masks.append(mask)
         mask = reduce(lambda x, y: x & y, masks)
         return mask.sum() > 0
-- 
2.43.0


From 1b8879a0909e18860ee4642955a940d824948fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:47 +0000
Subject: [PATCH 41/43] fix: TT-GMRES failed with tolerance zero once the
 Krylov space was exhausted

---
 tt_sketch/tt_gmres.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index c30a927..abf0b8e 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -426,7 +426,8 @@ def tt_sum_gmres(
         history["w_norm"].append(H_matrix[j + 1, j])
         history["delta"].append(delta)
 
-        if residual_norm / b_norm < tolerance:
+        if residual_norm / b_norm < tolerance or H_matrix[j + 1, j] == 0:
+            # If the norm is zero there is no next basis vector
             break
 
     # Compute final result and round
-- 
2.43.0


From 97d154a907277e5093c8df62696bf5bc1ba59a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:47 +0000
Subject: [PATCH 42/43] fix: sparse sign maps accepted more nonzeros per row
 than columns and accessed memory out of bounds

---
 tt_sketch/drm/sparse_sign_drm.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tt_sketch/drm/sparse_sign_drm.py b/tt_sketch/drm/sparse_sign_drm.py
index 8f6e792..ee4f8bf 100644
--- a/tt_sketch/drm/sparse_sign_drm.py
+++ b/tt_sketch/drm/sparse_sign_drm.py
@@ -34,6 +34,14 @@ class SparseSignDRM(CansketchSparse, CanSlice):
             self.nnz = tuple(num_non_zero_per_row)[::-1]
         else:
             self.nnz = tuple(num_non_zero_per_row)
+        if len(self.nnz) != len(self.true_rank) or any(
+            n > r for n, r in zip(self.nnz, self.true_rank)
+        ):
+            # The kernel does not check bounds
+            raise ValueError(
+                f"Nonzeros per row {num_non_zero_per_row} do not fit the rank "
+                f"{rank}"
+            )
 
     def slice(
         self, start_rank: Tuple[int, ...], end_rank: Tuple[int, ...]
-- 
2.43.0


From c715c78b09593db33f74c02e987d248c237e6412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:59 +0000
Subject: [PATCH 43/43] fix: Experiment recognises text parameters that are
 numbers after a restart

Text such as "2" is read from the results file as a number (or as 2.0 if the
column has missing values), and then its experiment was done again.
---
 scripts/experiment_base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index fa05bed..292f296 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -66,6 +66,12 @@ class Experiment:
             if isinstance(value, (int, np.integer, np.bool_)):
                 # May have been saved as "1.0", or "1" for a boolean
                 mask |= recorded.astype(str).isin([str(int(value)), str(float(value))])
+            elif isinstance(value, str):
+                # Text that is a number may be read from file as a number
+                if value.lstrip("-").isdecimal():
+                    mask |= recorded.astype(str) == value + ".0"
+                if pd.api.types.is_numeric_dtype(recorded):
+                    mask |= recorded == pd.to_numeric(value, errors="coerce")
             masks.append(mask)
         mask = reduce(lambda x, y: x & y, masks)
         return mask.sum() > 0
-- 
2.43.0

