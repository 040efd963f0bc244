From b3778a44217bc0ab286d29502b38d9fa5fd3bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 01/43] fix: scale the cores of a sketch in
 SketchContainer.__mul__

It read the list it was defining, so scaling, negating and subtracting a
streaming sketch raised UnboundLocalError.
---
 tt_sketch/sketch_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch_container.py b/tt_sketch/sketch_container.py
index fed61f3..9bc3c89 100644
--- a/tt_sketch/sketch_container.py
+++ b/tt_sketch/sketch_container.py
@@ -75,7 +75,7 @@ class SketchContainer:
         return self.__class__(Psi_cores_new, Omega_mats_new)
 
     def __mul__(self, other: float) -> SketchContainer:
-        new_Psi_cores = [Psi * other for Psi in new_Psi_cores]
+        new_Psi_cores = [Psi * other for Psi in self.Psi_cores]
         new_Omega_mats = [Omega * other for Omega in self.Omega_mats]
         return self.__class__(new_Psi_cores, new_Omega_mats)
 
-- 
2.43.0


From 803591616f6701fc7587ae8f0df504c10840ad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 02/43] fix: make CPTensor.size a property like in every other
 tensor

The size of a sum containing a CP tensor raised TypeError.
---
 tt_sketch/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 75fb187..b6511a2 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -685,6 +685,7 @@ class CPTensor(Tensor):
         self.rank = cores[0].shape[1]
         self.shape = tuple(C.shape[0] for C in cores)
 
+    @property
     def size(self) -> int:
         return sum(C.size for C in self.cores)
 
-- 
2.43.0


From 45d305112afb710fd061463632bfd54e883d17dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 03/43] fix: do not change the original MPO when scaling it

The scaled MPO shared its list of cores with the original.
---
 tt_sketch/tt_gmres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index f02ae69..d209ad5 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -129,7 +129,7 @@ class MPO(Tensor, TTLinearMap):
         return cls(cores)
 
     def __mul__(self, other: float) -> MPO:
-        new_cores = self.cores
+        new_cores = list(self.cores)
         new_cores[0] = new_cores[0] * other
         return self.__class__(new_cores)
 
-- 
2.43.0


From e934549efd43ee4886b66ed94207e86686713be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 04/43] fix: compute singular values of TTs with over-sized
 ranks

The full U does not match the singular values if a core has more rows than
columns, so TensorTrain.svdvals raised ValueError.
---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index b6511a2..14ad90a 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -499,7 +499,7 @@ class TensorTrain(Tensor):
             else:
                 C_mat = C.reshape(C.shape[0] * C.shape[1], C.shape[2])
 
-            U, S, _ = np.linalg.svd(C_mat)
+            U, S, _ = np.linalg.svd(C_mat, full_matrices=False)
             svdvals.append(S)
         svdvals = svdvals[::-1]
         return svdvals
-- 
2.43.0


From fd852ea44e619a345bd9305e1a6cbe50459de28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 05/43] fix: sqrt_tensor swapped the first two modes

---
 tt_sketch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 22d33a7..669d6cf 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -33,7 +33,7 @@ def sqrt_tensor(shape: Tuple[int, ...], a=-0.2, b=2) -> npt.NDArray:
         return np.sqrt(np.abs(np.sum(X, axis=0)))
 
     vals = [np.linspace(a, b, s) for s in shape]
-    grid = np.stack(np.meshgrid(*vals))
+    grid = np.stack(np.meshgrid(*vals, indexing="ij"))
     X = sqrt_sum(grid)
     X /= np.linalg.norm(X)
     return X
-- 
2.43.0


From 8f7f0b6657b132457824a224c8b24fe2258671c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 06/43] fix: NameError in power_decay_tensor

---
 tt_sketch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 669d6cf..f12de64 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -46,7 +46,7 @@ def power_decay_tensor(
     unfolding decay with a power law."""
     # if seed is not None:
     #     np.random.seed(np.mod(seed, 2**32 - 1))
-    seq = SeedSequence(seed)
+    seq = np.random.SeedSequence(seed)
     A_seed = seq.generate_state(1)[0]
     A = random_normal(shape=shape, seed=A_seed)
     for mode in range(len(A.shape)):
-- 
2.43.0


From 081c8d39f8e9daa3f4571ef69e178d8a19c08182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 07/43] fix: overflow in flattened index of lazy DRM entries

The strides were kept in 32 bits, so in tensors with more than 2**31 entries
different indices were given the same DRM column.
---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index a80f2d4..3217552 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -62,7 +62,7 @@ cpdef double[:] _inds_to_rand_double(
     cdef int n_dim = len(shape)
     cdef int rank = rank_max - rank_min
 
-    cdef int prod = shape[0]
+    cdef uint64 prod = shape[0]
     cdef int i
     cdef int j
     for i in range(1,n_dim):
-- 
2.43.0


From e5df4a830d8221ed12856ee030f1d9ca10d485ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 08/43] fix: check for support of rank increase in
 increase_rank

---
 tt_sketch/sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index 4a79abf..239507a 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -316,7 +316,7 @@ class SketchedTensorTrain(Tensor):
             new_right_rank, tensor.shape, trim=False
         )
         for drm in (self.left_drm, self.right_drm):
-            if not isinstance(drm, CanSlice):
+            if not isinstance(drm, CanIncreaseRank):
                 drm_name = drm.__class__.__name__
                 raise ValueError(
                     f"Increasing rank is not supported for DRM {drm_name}"
-- 
2.43.0


From c5f18979559df15f401e14c414b38913cb3c4579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 09/43] fix: NameError in hmt_sketch(return_drm=True)

---
 tt_sketch/sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index 239507a..a45de53 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -73,7 +73,7 @@ def hmt_sketch(
 
     sketched = TensorTrain(sketch.Psi_cores)
     if return_drm:  # this really is mostly for testing purposes
-        return sketched, drm, right_drm  # type: ignore
+        return sketched, drm  # type: ignore
     else:
         return sketched
 
-- 
2.43.0


From 02a18689ad89c8767e3e9c90e6879c0f6936667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 10/43] fix: derive the seed of the right DRM reproducibly

hash(str(d)) differs between processes, so a sketch with a given seed was
different in every run.
---
 tt_sketch/sketch.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index a45de53..9f87704 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -41,6 +41,12 @@ DEFAULT_DRM = {
 BlockedSketch = Dict[Tuple[int, int], SketchContainer]
 
 
+def _derive_right_seed(seed: int, n_dims: int) -> int:
+    """Seed of the right DRM, independent of the left DRM with seed ``seed``"""
+    entropy = [int(np.mod(seed, 2**32)), n_dims]
+    return int(np.random.SeedSequence(entropy).generate_state(1)[0])
+
+
 def hmt_sketch(
     tensor: Tensor,
     rank: TTRank,
@@ -129,7 +135,7 @@ def orthogonal_sketch(
             else:
                 right_drm_type = TensorTrainDRM
         right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
-        right_seed = np.mod(seed + hash(str(d)), 2**32)
+        right_seed = _derive_right_seed(seed, d)
         right_drm = right_drm_type(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
@@ -207,7 +213,7 @@ def stream_sketch(
         right_rank = process_tt_rank(
             right_rank, tensor.shape, trim=left_rank_bigger
         )
-        right_seed = np.mod(seed + hash(str(d)), 2**32)
+        right_seed = _derive_right_seed(seed, d)
         right_drm = right_drm_type(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
-- 
2.43.0


From 6247487092a2720fd18d3ffbd223de1b2481865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 11/43] fix: transpose of DRMs with non-palindromic shape or
 rank

The transpose of a DRM kept the shape and reversed the ranks, where it should
reverse the shape and keep the internal order of ranks. A transposed sketch
reported wrong ranks, and could not be updated.
---
 tt_sketch/drm_base.py        |  7 +++----
 tt_sketch/sketch_dispatch.py | 11 +++++------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/tt_sketch/drm_base.py b/tt_sketch/drm_base.py
index 8d35da0..c1802f3 100644
--- a/tt_sketch/drm_base.py
+++ b/tt_sketch/drm_base.py
@@ -66,10 +66,9 @@ class DRM(ABC):
     def T(self):
         transposed = deepcopy(self)
         transposed.transpose = not self.transpose
-        transposed.true_rank = transposed.true_rank[::-1]
-        transposed.rank_min = transposed.rank_min[::-1]
-        transposed.rank_max = transposed.rank_max[::-1]
-        transposed.rank = transposed.rank[::-1]
+        # The ranks of a right DRM are stored right-to-left, so the ranks stay
+        # the same.
+        transposed.shape = self.shape[::-1]
         return transposed
 
     def __repr__(self) -> str:
diff --git a/tt_sketch/sketch_dispatch.py b/tt_sketch/sketch_dispatch.py
index 40f937e..f10d438 100644
--- a/tt_sketch/sketch_dispatch.py
+++ b/tt_sketch/sketch_dispatch.py
@@ -217,9 +217,8 @@ def general_sketch(
         left_contractions = list(get_sketch_method(tensor, left_drm)(tensor))
     right_contractions = list(get_sketch_method(tensor, right_drm)(tensor))
 
-    if left_drm is None:
-        # This is just required for shape information in the case of HMT
-        left_drm = right_drm.T
+    # In the case of HMT there is no left DRM, and the ranks are the right ranks
+    left_rank = right_drm.rank[::-1] if left_drm is None else left_drm.rank
 
     Psi_cores: ArrayList = []
 
@@ -228,7 +227,7 @@ def general_sketch(
     if method != SketchMethod.hmt:
         omega_method = OMEGA_METHODS[type(tensor)]
         for mu in range(n_dims - 1):
-            omega_shape = (left_drm.rank[mu], right_drm.rank[::-1][mu])
+            omega_shape = (left_rank[mu], right_drm.rank[::-1][mu])
             Omega_mats.append(
                 omega_method(
                     left_contractions[mu],
@@ -240,7 +239,7 @@ def general_sketch(
             )
 
     if method in (SketchMethod.hmt, SketchMethod.orthogonal):
-        left_psi_drm = OrthogTTDRM(left_drm.rank, tensor)
+        left_psi_drm = OrthogTTDRM(left_rank, tensor)
 
     # Compute Psi cores
     psi_method = PSI_METHODS[type(tensor)]
@@ -251,7 +250,7 @@ def general_sketch(
                 left_sketch = next(left_psi_drm)
             else:
                 left_sketch = left_contractions[mu - 1]
-            r1 = left_drm.rank[mu - 1]
+            r1 = left_rank[mu - 1]
         else:
             left_sketch = None
             r1 = 1
-- 
2.43.0


From 8e27b6cc08bd78700b1e5db00569ca946f3da50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 12/43] fix: slices of TensorTrainDRM ignored for dense and
 Tucker tensors

---
 tt_sketch/drm/tensor_train_drm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tt_sketch/drm/tensor_train_drm.py b/tt_sketch/drm/tensor_train_drm.py
index 985ce5c..85f8ac9 100644
--- a/tt_sketch/drm/tensor_train_drm.py
+++ b/tt_sketch/drm/tensor_train_drm.py
@@ -110,7 +110,7 @@ class TensorTrainDRM(
     def sketch_dense(self, tensor: DenseTensor) -> ArrayGenerator:
         n_dims = len(self.shape)
         partial_contraction = self.cores[0].reshape(-1, self.cores[0].shape[-1])
-        yield partial_contraction.T
+        yield partial_contraction[:, self.rank_min[0] : self.rank_max[0]].T
         for mu in range(1, n_dims - 1):
             core = self.cores[mu]
             partial_contraction = np.einsum(
@@ -119,7 +119,7 @@ class TensorTrainDRM(
             partial_contraction = partial_contraction.reshape(
                 -1, partial_contraction.shape[-1]
             )
-            yield partial_contraction.T
+            yield partial_contraction[:, self.rank_min[mu] : self.rank_max[mu]].T
 
     @handle_transpose
     def sketch_tucker(self, tensor: TuckerTensor) -> ArrayGenerator:
@@ -128,9 +128,9 @@ class TensorTrainDRM(
             "ijk,jl->ilk", self.cores[0], tensor.factors[0].T
         )
         partial_contraction = partial_contraction.reshape(
-            tensor.rank[0], self.rank[0]
+            -1, partial_contraction.shape[-1]
         )
-        yield partial_contraction
+        yield partial_contraction[:, self.rank_min[0] : self.rank_max[0]]
 
         for mu in range(1, n_dims - 1):
             core_reduced = np.einsum(
@@ -142,4 +142,4 @@ class TensorTrainDRM(
             partial_contraction = partial_contraction.reshape(
                 -1, partial_contraction.shape[-1]
             )
-            yield partial_contraction
+            yield partial_contraction[:, self.rank_min[mu] : self.rank_max[mu]]
-- 
2.43.0


From 48cab6dfaee2ce8431dbf5b99fa8cab98789d745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 13/43] fix: keep the given cores when slicing a TensorTrainDRM

---
 tt_sketch/drm/tensor_train_drm.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tt_sketch/drm/tensor_train_drm.py b/tt_sketch/drm/tensor_train_drm.py
index 85f8ac9..d1fd072 100644
--- a/tt_sketch/drm/tensor_train_drm.py
+++ b/tt_sketch/drm/tensor_train_drm.py
@@ -57,6 +57,13 @@ class TensorTrainDRM(
         else:
             self.cores = kwargs["cores"]
 
+    def slice(
+        self, start_rank: Tuple[int, ...], end_rank: Tuple[int, ...]
+    ) -> "TensorTrainDRM":
+        sliced = super().slice(start_rank, end_rank)
+        sliced.cores = self.cores  # type: ignore
+        return sliced  # type: ignore
+
     @handle_transpose
     def sketch_sparse(self, tensor: SparseTensor) -> ArrayGenerator:
         for mu, core in enumerate(self.cores):
-- 
2.43.0


From 5001f0d6be97671e055f1653496d4dcec04a5f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 14/43] fix: order of num_non_zero_per_row in right
 SparseSignDRM

The rank of a right DRM is stored right-to-left, but the number of non-zeros
was not reversed, which used the wrong number (and wrote out of bounds if it
exceeds the rank).
---
 tt_sketch/drm/sparse_sign_drm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/drm/sparse_sign_drm.py b/tt_sketch/drm/sparse_sign_drm.py
index d38634e..8d98bea 100644
--- a/tt_sketch/drm/sparse_sign_drm.py
+++ b/tt_sketch/drm/sparse_sign_drm.py
@@ -29,6 +29,8 @@ class SparseSignDRM(CansketchSparse, CanSlice):
         super().__init__(rank, shape, transpose, seed=seed, **kwargs)
         if num_non_zero_per_row is None:
             num_non_zero_per_row = self.true_rank
+        elif transpose:  # Use same order as the rank
+            num_non_zero_per_row = num_non_zero_per_row[::-1]
         self.nnz = num_non_zero_per_row
 
     @handle_transpose
-- 
2.43.0


From cfcf43d7545268271a0069c8fe38e5778c5563d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 15/43] fix: keep the number of non-zeros when slicing a
 SparseSignDRM

---
 tt_sketch/drm/sparse_sign_drm.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tt_sketch/drm/sparse_sign_drm.py b/tt_sketch/drm/sparse_sign_drm.py
index 8d98bea..1459a62 100644
--- a/tt_sketch/drm/sparse_sign_drm.py
+++ b/tt_sketch/drm/sparse_sign_drm.py
@@ -33,6 +33,13 @@ class SparseSignDRM(CansketchSparse, CanSlice):
             num_non_zero_per_row = num_non_zero_per_row[::-1]
         self.nnz = num_non_zero_per_row
 
+    def slice(
+        self, start_rank: Tuple[int, ...], end_rank: Tuple[int, ...]
+    ) -> "SparseSignDRM":
+        sliced = super().slice(start_rank, end_rank)
+        sliced.nnz = self.nnz  # type: ignore
+        return sliced  # type: ignore
+
     @handle_transpose
     def sketch_sparse(self, tensor: SparseTensor) -> ArrayGenerator:
         d = len(tensor.shape)
-- 
2.43.0


From a8b40c243b264c1aadab9cab534c2e2ada76b572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 16/43] fix: reject more non-zeros per row than the rank in
 SparseSignDRM

Generating the entries wrote out of bounds in this case.
---
 tt_sketch/drm/sparse_sign_drm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tt_sketch/drm/sparse_sign_drm.py b/tt_sketch/drm/sparse_sign_drm.py
index 1459a62..2524fe4 100644
--- a/tt_sketch/drm/sparse_sign_drm.py
+++ b/tt_sketch/drm/sparse_sign_drm.py
@@ -32,6 +32,11 @@ class SparseSignDRM(CansketchSparse, CanSlice):
         elif transpose:  # Use same order as the rank
             num_non_zero_per_row = num_non_zero_per_row[::-1]
         self.nnz = num_non_zero_per_row
+        if any(n > r for n, r in zip(self.nnz, self.true_rank)):
+            raise ValueError(
+                f"Number of non-zeros {self.nnz} can't exceed the rank "
+                f"{self.true_rank}"
+            )
 
     def slice(
         self, start_rank: Tuple[int, ...], end_rank: Tuple[int, ...]
-- 
2.43.0


From 60ddbe5b7507d3077651e3b969f0a70e98cb04c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 17/43] fix: use the processed seed in DenseGaussianDRM

Without a seed, slices and extensions of the DRM were unrelated to it, and
large seeds raised ValueError.
---
 tt_sketch/drm/dense_gaussian_drm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/drm/dense_gaussian_drm.py b/tt_sketch/drm/dense_gaussian_drm.py
index 6d637f1..f8d04a7 100644
--- a/tt_sketch/drm/dense_gaussian_drm.py
+++ b/tt_sketch/drm/dense_gaussian_drm.py
@@ -47,7 +47,7 @@ class DenseGaussianDRM(
             dim_prod *= n
 
             # TODO: make this correctly work with rank_increase and random_normal
-            np.random.seed(seed)
+            np.random.seed(self.seed)
             seed_offset = hash(np.random.uniform(0, dim_prod))
             np.random.seed(np.mod(self.seed + seed_offset, 2**32 - 1))
 
-- 
2.43.0


From 8614f39e36a25c9fd487f7765462a11e8f741c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 18/43] fix: round sums of one TT in round_tt_sum with pairwise
 method

---
 tt_sketch/tt_gmres.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index d209ad5..53f2abb 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -281,6 +281,8 @@ def round_tt_sum(
         return tt.round(eps, max_rank)
     elif method == "pairwise":
         tt = tt_sum.tensors[0]
+        if tt_sum.num_summands == 1:
+            return tt.round(eps=eps, max_rank=max_rank)
         for t in tt_sum.tensors[1:]:
             tt = tt.add(t).round(eps=eps, max_rank=max_rank)
     elif method == "sketch":
-- 
2.43.0


From 94ba4089a7c9245242448999600afd4da6c5dede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 19/43] fix: stale entries in SparseTensor.gather

The entries were cached, so changing them in place was ignored by gather and
by inner products.
---
 tt_sketch/tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 14ad90a..2709056 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -4,7 +4,6 @@ from __future__ import annotations
 from abc import ABC, abstractmethod, abstractproperty
 from copy import deepcopy
 from dataclasses import dataclass
-from functools import cached_property
 from typing import (
     Iterable,
     List,
@@ -285,7 +284,7 @@ class SparseTensor(Tensor):
             out[i] = dic.get(ind, 0.0)
         return out
 
-    @cached_property
+    @property
     def dict(self) -> Dict[int, float]:
         dense_indices = np.ravel_multi_index(self.indices, self.shape)
         return {i: v for i, v in zip(dense_indices, self.entries)}
-- 
2.43.0


From 1133575f57d85fa4f99e2269d727040d95b0e515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 20/43] fix: random numbers depended on the number of CPUs

---
 tt_sketch/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index f12de64..01f4336 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -1,6 +1,5 @@
 # %%
 import concurrent.futures
-import multiprocessing
 from functools import reduce
 from operator import mul
 from typing import Generator, List, Optional, Sequence, Tuple, Union
@@ -184,7 +183,9 @@ class MultithreadedRNG:
 
     def __init__(self, shape, seed=None, threads=None):
         if threads is None:
-            threads = multiprocessing.cpu_count()
+            # Every thread has its own stream of random numbers, so this can't
+            # depend on the machine or the results would too.
+            threads = 8
         self.threads = threads
 
         seq = np.random.SeedSequence(seed)
-- 
2.43.0


From 5ece4ba9486eeddd0c4213bc1ee60fa9fe36529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 21/43] fix: lazy DRMs of nearby seeds were shifted copies of
 each other

The seed was added to the index, so that the column of an index with one seed
was the column of the next index with the preceding seed. This also related
the DRMs of neighbouring modes.
---
 tt_sketch/drm/fast_lazy_gaussian.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/drm/fast_lazy_gaussian.pyx b/tt_sketch/drm/fast_lazy_gaussian.pyx
index 3217552..c407a5a 100644
--- a/tt_sketch/drm/fast_lazy_gaussian.pyx
+++ b/tt_sketch/drm/fast_lazy_gaussian.pyx
@@ -75,8 +75,14 @@ cpdef double[:] _inds_to_rand_double(
     # print(np.array(size_salt)) (if we increase rank then first r size salts
     # are still the same)
     
+    # Hash the seed too, since otherwise different seeds merely shift the indices.
+    # Hash it twice, since otherwise seeds and rows are interchangeable.
+    cdef uint64[:] seed_hash = np.array([seed], dtype=np.uint64)
+    hash_int_c(seed_hash)
+    hash_int_c(seed_hash)
+
     for i in range(rank):
-        size_salt[i] += seed
+        size_salt[i] += seed_hash[0]
 
     cdef uint64[:,:] indices_flat_large = np.empty(
         (N, rank), dtype=np.uint64
-- 
2.43.0


From 65db3fc43d124a0493797777471bee8d9a4bf7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 22/43] fix: reject unknown direction in partial_dense

---
 tt_sketch/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 2709056..56db3eb 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -402,6 +402,8 @@ class TensorTrain(Tensor):
                 new_core = np.einsum("ijk,kl->ijl", core, partial_cores[-1])
                 new_core = new_core.reshape(new_core.shape[0], -1)
                 partial_cores.append(new_core)
+        else:
+            raise ValueError(f"Unknown direction {dir}")
         return partial_cores
 
     def __getitem__(self, index: int) -> npt.NDArray:
-- 
2.43.0


From ddeae065a5ff2fa9cfc80bc13d0b01df3af95893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 23/43] fix: raise ValueError if a DRM doesn't support the type
 of tensor

---
 tt_sketch/sketch_dispatch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/sketch_dispatch.py b/tt_sketch/sketch_dispatch.py
index f10d438..777c5c4 100644
--- a/tt_sketch/sketch_dispatch.py
+++ b/tt_sketch/sketch_dispatch.py
@@ -148,8 +148,8 @@ def sum_sketch(tensor: TensorSum, *, drm: DRM):
 
 
 def get_sketch_method(tensor: Tensor, drm: DRM) -> Callable:
-    if type(tensor) in DRM_SKETCH_METHOD_DISPATCH:
-        drm_sketch_method = DRM_SKETCH_METHOD_DISPATCH[type(tensor)]
+    drm_sketch_method = DRM_SKETCH_METHOD_DISPATCH.get(type(tensor), "")
+    if hasattr(drm, drm_sketch_method):
         return getattr(drm, drm_sketch_method)
     elif isinstance(tensor, TensorSum):
         return partial(sum_sketch, drm=drm)
-- 
2.43.0


From a2f0b857356bc06cf999872f2faa68858b27b836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 24/43] fix: accept integer and list ranks together with given
 DRMs

The rank was compared before converting it to a tuple, so a consistent rank was
rejected.
---
 tt_sketch/sketch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index 9f87704..cfea5f0 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -69,6 +69,7 @@ def hmt_sketch(
         rank = process_tt_rank(rank, tensor.shape, trim=True)
         drm = drm_type(rank, transpose=True, shape=tensor.shape, seed=seed)
     else:
+        rank = process_tt_rank(rank, tensor.shape, trim=False)
         if tuple(drm.rank[::-1]) != rank:
             raise ValueError(
                 f"Right rank {rank} does not match the rank of the DRM "
@@ -122,6 +123,7 @@ def orthogonal_sketch(
             left_rank, transpose=False, shape=tensor.shape, seed=seed
         )
     else:
+        left_rank = process_tt_rank(left_rank, tensor.shape, trim=False)
         if left_drm.rank != left_rank:
             raise ValueError(
                 f"Left rank {left_rank} does not match the rank of the DRM "
@@ -140,6 +142,7 @@ def orthogonal_sketch(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
     else:
+        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
         if tuple(right_drm.rank[::-1]) != right_rank:
             raise ValueError(
                 f"Right rank {right_rank} does not match the rank of the DRM "
@@ -198,6 +201,7 @@ def stream_sketch(
             left_rank, transpose=False, shape=tensor.shape, seed=seed
         )
     else:
+        left_rank = process_tt_rank(left_rank, tensor.shape, trim=False)
         if left_drm.rank != left_rank:
             raise ValueError(
                 f"Left rank {left_rank} does not match the rank of the DRM "
@@ -218,6 +222,7 @@ def stream_sketch(
             right_rank, transpose=True, shape=tensor.shape, seed=right_seed
         )
     else:
+        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
         if tuple(right_drm.rank[::-1]) != right_rank:
             raise ValueError(
                 f"Right rank {right_rank} does not match the rank of the DRM "
-- 
2.43.0


From 3b4787d4f623980b19c261d988bd55ce8bb86b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 25/43] fix: trim the ranks of TTs with more than 100 modes
 completely

---
 tt_sketch/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 01f4336..52046e8 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -136,7 +136,7 @@ def trim_ranks(
         ranks_trimmed[i] = min(r, dim_left, dim_right)
     changed = True
     ranks_trimmed = [1] + ranks_trimmed + [1]
-    for _ in range(100):
+    while changed:
         changed = False
         for i, d in enumerate(dims):
             if ranks_trimmed[i + 1] > ranks_trimmed[i] * d:
@@ -145,8 +145,6 @@ def trim_ranks(
             if ranks_trimmed[i] > d * ranks_trimmed[i + 1]:
                 changed = True
                 ranks_trimmed[i] = d * ranks_trimmed[i + 1]
-        if not changed:
-            break
 
     return tuple(ranks_trimmed[1:-1])
 
-- 
2.43.0


From 9d83ea431202cbb39b946daca3dcd0c0c9eb98eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 26/43] fix: compare residual norm instead of its square to the
 tolerance in GMRES

The least squares solver returns the squared residual (and nothing at all if
the matrix is rank deficient), so the solver stopped far above the tolerance.
---
 tt_sketch/tt_gmres.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index 53f2abb..34772ac 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -403,9 +403,10 @@ def tt_sum_gmres(
         H_red = H_matrix[: j + 2, : j + 1]
         e1 = np.zeros(j + 2)
         e1[0] = beta
-        y, (residual_norm,), _, _ = np.linalg.lstsq(H_red, e1, rcond=None)
+        y = np.linalg.lstsq(H_red, e1, rcond=None)[0]
+        residual_norm = np.linalg.norm(H_red @ y - e1)
         history["step_time_with_res_norm"].append(perf_counter() - current_time)
-        history["residual_norm"].append(np.sqrt(residual_norm) / b_norm)
+        history["residual_norm"].append(residual_norm / b_norm)
         history["rank"].append(w_rounded.rank)
         history["w_norm"].append(H_matrix[j + 1, j])
         history["delta"].append(delta)
-- 
2.43.0


From d1567937e2903425dde269f19aec8c3b74e30c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 27/43] fix: compare preconditioned residual to preconditioned
 right-hand side

The relative residual depended on the scale of the preconditioner, so that a
large preconditioner gave a wrong solution.
---
 tt_sketch/tt_gmres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index 34772ac..c15a310 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -354,7 +354,7 @@ def tt_sum_gmres(
 
     b_pr = precond(b) if precond is not None else b
 
-    b_norm = b.norm()
+    b_norm = b_pr.norm()
     initial_time = perf_counter()
     residual = b_pr - apply_A_pr(x0)
     residual_rounded = round_tt_sum(
-- 
2.43.0


From fd641d0c68ce56497da882adb88d9e06d39519c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 28/43] fix: rounding tolerance of GMRES for initial guess with
 large residual

The tolerance is relative to the right-hand side, so the accuracy of the Krylov
vectors needs to be as well. A bad initial guess otherwise gives a wrong
solution.
---
 tt_sketch/tt_gmres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index c15a310..be14245 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -373,7 +373,7 @@ def tt_sum_gmres(
 
     for j in range(maxiter):
         current_time = perf_counter()
-        delta = tolerance / (residual_norm / beta)
+        delta = tolerance / (residual_norm / b_norm)
         if verbose:
             logging.info(
                 f"Iteration {j + 1}/{maxiter}, residual norm: {residual_norm / b_norm:.4e}"
-- 
2.43.0


From 355a4bad3548e8bf5cd9ef69efaedc82e79e7658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 29/43] fix: GMRES with exact initial guess or zero right-hand
 side

Dividing by the zero residual gave a solution of NaNs. The same happened if the
Krylov space is exhausted.
---
 tt_sketch/tt_gmres.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/tt_sketch/tt_gmres.py b/tt_sketch/tt_gmres.py
index be14245..ff7ef06 100644
--- a/tt_sketch/tt_gmres.py
+++ b/tt_sketch/tt_gmres.py
@@ -355,6 +355,8 @@ def tt_sum_gmres(
     b_pr = precond(b) if precond is not None else b
 
     b_norm = b_pr.norm()
+    if b_norm == 0:  # Use the absolute residual
+        b_norm = 1.0
     initial_time = perf_counter()
     residual = b_pr - apply_A_pr(x0)
     residual_rounded = round_tt_sum(
@@ -362,16 +364,21 @@ def tt_sum_gmres(
     )
     residual_norm = residual_rounded.norm()
     beta = residual_norm
-    nu_list: List[TensorTrain] = [residual_rounded / beta]
+    nu_list: List[TensorTrain] = []
+    y = np.zeros(0)
+    if beta > 0:
+        nu_list.append(residual_rounded / beta)
     H_matrix = np.zeros((maxiter + 1, maxiter))
 
     history: Dict[str, Any] = defaultdict(list)
-    history["w_norm"].append(nu_list[-1].norm())
+    history["w_norm"].append(nu_list[-1].norm() if nu_list else 0.0)
     history["rank"].append(residual_rounded.rank)
     history["residual_norm"].append(residual_norm / b_norm)
     history["step_time"].append(perf_counter() - initial_time)
 
     for j in range(maxiter):
+        if residual_norm <= tolerance * b_norm:
+            break
         current_time = perf_counter()
         delta = tolerance / (residual_norm / b_norm)
         if verbose:
@@ -396,7 +403,8 @@ def tt_sum_gmres(
             w_sum, eps=delta, max_rank=max_rank, method=rounding_method
         )
         H_matrix[j + 1, j] = w_rounded.norm()
-        nu_list.append(w_rounded / H_matrix[j + 1, j])
+        if H_matrix[j + 1, j] > 0:
+            nu_list.append(w_rounded / H_matrix[j + 1, j])
         history["step_time"].append(perf_counter() - current_time)
 
         # Compute residual norm
@@ -411,14 +419,15 @@ def tt_sum_gmres(
         history["w_norm"].append(H_matrix[j + 1, j])
         history["delta"].append(delta)
 
-        if residual_norm / b_norm < tolerance:
+        if H_matrix[j + 1, j] == 0:  # Krylov space contains the solution
             break
 
     # Compute final result and round
-    y = y[: j + 1]
-    nu_list = nu_list[: j + 1]
+    nu_list = nu_list[: len(y)]
     current_time = perf_counter()
-    result = x0 + TensorSum(nu_list) * y
+    result = TensorSum([x0])
+    if len(nu_list) > 0:
+        result += TensorSum(nu_list) * y
     result_rounded = round_tt_sum(
         result,
         eps=None,
-- 
2.43.0


From ca4e986266f6a9802d02c2e4636a3ba10d68589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 30/43] fix: experiments were run again after reloading the log

Reading the log turned parameters that are None into missing values, changed the
last digits of floats and added an index column, so that recorded experiments
were not recognised.
---
 scripts/experiment_base.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index c5343e9..c78b75c 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -9,6 +9,17 @@ from tt_sketch.tensor import Tensor, TensorTrain
 from tt_sketch.tt_svd import tt_svd
 
 
+def read_data(filename: str) -> pd.DataFrame:
+    """Read back exactly what was written by ``Experiment.save``"""
+    return pd.read_csv(
+        filename,
+        index_col=0,
+        keep_default_na=False,  # Parameters can be ``None``
+        na_values=[""],
+        float_precision="round_trip",
+    )
+
+
 class Experiment:
     data: pd.DataFrame
     filename: str
@@ -23,7 +34,7 @@ class Experiment:
         self.filename = filename
         if data is None:
             if isfile(filename) and not force_overwrite:
-                data = pd.read_csv(filename)
+                data = read_data(filename)
             else:
                 data = pd.DataFrame(columns=["name", "error", "time_taken"])
 
@@ -31,7 +42,7 @@ class Experiment:
 
     @classmethod
     def load(cls, filename):
-        data = pd.read_csv(filename)
+        data = read_data(filename)
         return cls(filename, data)
 
     def save(self):
-- 
2.43.0


From 2eb6ef540205791a7cb3c06dba09a734015df935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 31/43] fix: order of modes when sketching dense and Tucker
 tensors from the right

A right DRM contracts the transposed tensor, so its rows are ordered by the
reversed modes, but they were multiplied with the tensor in the original order.
A DRM therefore acted differently on these formats than on the others, so that
sketches of different formats could not be added.
---
 tt_sketch/sketching_methods/dense_sketch.py  |  5 ++++-
 tt_sketch/sketching_methods/tucker_sketch.py |  5 ++++-
 tt_sketch/utils.py                           | 10 ++++++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/sketching_methods/dense_sketch.py b/tt_sketch/sketching_methods/dense_sketch.py
index 7d04138..c661a47 100644
--- a/tt_sketch/sketching_methods/dense_sketch.py
+++ b/tt_sketch/sketching_methods/dense_sketch.py
@@ -1,7 +1,7 @@
 import numpy as np
 import numpy.typing as npt
 from tt_sketch.tensor import DenseTensor
-from tt_sketch.utils import matricize
+from tt_sketch.utils import matricize, reverse_modes
 
 
 def sketch_omega_dense(
@@ -13,6 +13,7 @@ def sketch_omega_dense(
     **kwargs
 ) -> npt.NDArray:
     X_mat = matricize(tensor.data, range(mu + 1), mat_shape=True)
+    rigth_sketch = reverse_modes(rigth_sketch, tensor.shape[mu + 1 :])
     return left_sketch @ X_mat @ rigth_sketch.T
 
 
@@ -26,6 +27,8 @@ def sketch_psi_dense(
 ) -> npt.NDArray:
     ndim = tensor.ndim
     tensor_data = tensor.data
+    if right_sketch is not None:
+        right_sketch = reverse_modes(right_sketch, tensor.shape[mu + 1 :])
     if left_sketch is None:
         tensor_mat = matricize(tensor_data, 0, mat_shape=True)
         Psi = tensor_mat @ right_sketch.T
diff --git a/tt_sketch/sketching_methods/tucker_sketch.py b/tt_sketch/sketching_methods/tucker_sketch.py
index 96f4645..10591c3 100644
--- a/tt_sketch/sketching_methods/tucker_sketch.py
+++ b/tt_sketch/sketching_methods/tucker_sketch.py
@@ -3,7 +3,7 @@ from typing import Optional
 import numpy as np
 import numpy.typing as npt
 from tt_sketch.tensor import TuckerTensor
-from tt_sketch.utils import matricize
+from tt_sketch.utils import matricize, reverse_modes
 
 
 def sketch_omega_tucker(
@@ -16,6 +16,7 @@ def sketch_omega_tucker(
 ):
     mode = tuple(range(mu + 1))
     core_mat = matricize(tensor.core, mode, mat_shape=True)
+    right_sketch = reverse_modes(right_sketch.T, tensor.rank[mu + 1 :]).T
     return left_sketch.T @ core_mat @ right_sketch
 
 
@@ -27,6 +28,8 @@ def sketch_psi_tucker(
     mu: int,
     **kwargs
 ):
+    if right_sketch is not None:
+        right_sketch = reverse_modes(right_sketch.T, tensor.rank[mu + 1 :]).T
     left_dim = left_sketch.shape[0] if left_sketch is not None else 1
     right_dim = right_sketch.shape[0] if right_sketch is not None else 1
     core_ord3 = tensor.core.reshape(left_dim, tensor.rank[mu], right_dim)
diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 52046e8..3ffe180 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -94,6 +94,16 @@ def dematricize(A, mode, shape):
     return A
 
 
+def reverse_modes(A, shape):
+    """Reverse the order of the modes of size ``shape`` in the columns of ``A``.
+
+    The columns of ``A`` are ordered according to the reverse of ``shape``, and
+    those of the result according to ``shape``."""
+    A_tensor = A.reshape((A.shape[0],) + tuple(shape)[::-1])
+    perm = (0,) + tuple(range(len(shape), 0, -1))
+    return np.transpose(A_tensor, perm).reshape(A.shape)
+
+
 def right_mul_pinv(A, B, cond=None):
     """Compute numerically stable product ``A@np.linalg.pinv(B)``"""
     lstsq = scipy.linalg.lstsq(B.T, A.T, cond=cond)
-- 
2.43.0


From 1e1359c8caa5893a70da8c5c953fa8c27cfa9603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 32/43] fix: lazy DRMs of consecutive seeds shared entries

---
 tt_sketch/drm/sparse_gaussian_drm.py | 2 +-
 tt_sketch/drm/sparse_sign_drm.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/drm/sparse_gaussian_drm.py b/tt_sketch/drm/sparse_gaussian_drm.py
index 16a4fb4..c7b2ace 100644
--- a/tt_sketch/drm/sparse_gaussian_drm.py
+++ b/tt_sketch/drm/sparse_gaussian_drm.py
@@ -32,7 +32,7 @@ class SparseGaussianDRM(CansketchSparse, CanIncreaseRank):
         for mu in range(d - 1):
             shape = tensor.shape[: mu + 1]
             sketch_seed = np.mod(
-                mu + self.seed, 2**63, dtype=np.uint64
+                mu * 2**32 + self.seed, 2**63, dtype=np.uint64
             )  # ensure safe casting to uint
             sketch_mat = inds_to_normal(
                 tensor.indices[: mu + 1],
diff --git a/tt_sketch/drm/sparse_sign_drm.py b/tt_sketch/drm/sparse_sign_drm.py
index 2524fe4..e2b923f 100644
--- a/tt_sketch/drm/sparse_sign_drm.py
+++ b/tt_sketch/drm/sparse_sign_drm.py
@@ -51,7 +51,7 @@ class SparseSignDRM(CansketchSparse, CanSlice):
         for mu in range(d - 1):
             shape = tensor.shape[: mu + 1]
             sketch_seed = np.mod(
-                mu + self.seed, 2**63, dtype=np.uint64
+                mu * 2**32 + self.seed, 2**63, dtype=np.uint64
             )  # ensure safe casting to uint
             sketch_mat = inds_to_sparse_sign(
                 tensor.indices[: mu + 1],
-- 
2.43.0


From 058caccdebac89244a40002039fce039a87a1b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 33/43] fix: fast error between two zero tensors was nan

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 56db3eb..4f8a5fa 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -68,7 +68,7 @@ class Tensor(ABC):
             self_norm = self.norm()
             dot = self.dot(other)
             norm_sum = self_norm**2 + other_norm**2
-            error = np.sqrt(norm_sum) * np.sqrt(np.abs(1 - 2 * dot / norm_sum))
+            error = np.sqrt(np.abs(norm_sum - 2 * dot))
         else:
             error = np.linalg.norm(self.to_numpy() - other.to_numpy())
         if relative:
-- 
2.43.0


From 0159aa94e6ba9b419ccaf684ef2522cf8ca73e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 34/43] fix: reject Tucker ranks with a wrong number of
 elements

---
 tt_sketch/tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 4f8a5fa..eb7fcac 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -803,6 +803,10 @@ class TuckerTensor(Tensor):
             rank_tuple = tuple(rank)  # type: ignore
         except TypeError:
             rank_tuple = (rank,) * d  # type: ignore
+        if len(rank_tuple) != d:
+            raise ValueError(
+                f"Tucker rank {rank_tuple} doesn't have right number of elements"
+            )
         rank_tuple = tuple(min(r1, r2) for r1, r2 in zip(rank_tuple, shape))
 
         seq = SeedSequence(seed)
-- 
2.43.0


From f18b530f90d2bed2a5bf91304851323a25580f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 35/43] fix: reject a wrong number of numbers of non-zeros in
 SparseSignDRM

---
 tt_sketch/drm/sparse_sign_drm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tt_sketch/drm/sparse_sign_drm.py b/tt_sketch/drm/sparse_sign_drm.py
index e2b923f..4a36582 100644
--- a/tt_sketch/drm/sparse_sign_drm.py
+++ b/tt_sketch/drm/sparse_sign_drm.py
@@ -32,6 +32,11 @@ class SparseSignDRM(CansketchSparse, CanSlice):
         elif transpose:  # Use same order as the rank
             num_non_zero_per_row = num_non_zero_per_row[::-1]
         self.nnz = num_non_zero_per_row
+        if len(self.nnz) != len(self.true_rank):
+            raise ValueError(
+                f"Number of non-zeros {self.nnz} doesn't have right number of "
+                f"elements"
+            )
         if any(n > r for n, r in zip(self.nnz, self.true_rank)):
             raise ValueError(
                 f"Number of non-zeros {self.nnz} can't exceed the rank "
-- 
2.43.0


From 569766f90336e2646ab20ab4ccf2509506628cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 36/43] fix: reject inconsistently ordered ranks in
 increase_rank

---
 tt_sketch/sketch.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tt_sketch/sketch.py b/tt_sketch/sketch.py
index cfea5f0..6e9c79e 100644
--- a/tt_sketch/sketch.py
+++ b/tt_sketch/sketch.py
@@ -326,6 +326,18 @@ class SketchedTensorTrain(Tensor):
         new_right_rank = process_tt_rank(
             new_right_rank, tensor.shape, trim=False
         )
+        left_rank_bigger = np.all(
+            np.array(new_left_rank) > np.array(new_right_rank)
+        )
+        right_rank_bigger = np.all(
+            np.array(new_left_rank) < np.array(new_right_rank)
+        )
+        if not left_rank_bigger and not right_rank_bigger:
+            raise ValueError(
+                f"Left ranks or right ranks must be conistently larger or "
+                f"smaller than the other. Left rank: {new_left_rank}, "
+                f"right rank: {new_right_rank}"
+            )
         for drm in (self.left_drm, self.right_drm):
             if not isinstance(drm, CanIncreaseRank):
                 drm_name = drm.__class__.__name__
-- 
2.43.0


From b4a45177edc6554795cf60e51d3bd952eb6c4f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 37/43] fix: core and first factor of random Tucker tensors
 were made from the same random numbers

---
 tt_sketch/tensor.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index eb7fcac..05660ed 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -810,11 +810,10 @@ class TuckerTensor(Tensor):
         rank_tuple = tuple(min(r1, r2) for r1, r2 in zip(rank_tuple, shape))
 
         seq = SeedSequence(seed)
-        core_seed = seq.generate_state(1)[0]
-        core = random_normal(shape=rank_tuple, seed=core_seed)
+        seeds = seq.generate_state(d + 1)
+        core = random_normal(shape=rank_tuple, seed=seeds[d])
         factors = []
-        seeds = seq.generate_state(d)
-        for r, n, seed in zip(rank_tuple, shape, seeds):
+        for r, n, seed in zip(rank_tuple, shape, seeds[:d]):
             U = random_normal(shape=(r, n), seed=seed)
             U = np.linalg.qr(U.T)[0].T
             factors.append(U)
-- 
2.43.0


From bf5eb417b31f89ad641c0cdfcd9d0a9b5fad4dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:13 +0000
Subject: [PATCH 38/43] fix: products with pseudo-inverses of rank-deficient
 matrices inverted rounding errors

---
 tt_sketch/utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 3ffe180..29946f5 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -104,8 +104,17 @@ def reverse_modes(A, shape):
     return np.transpose(A_tensor, perm).reshape(A.shape)
 
 
+def _pinv_cutoff(A):
+    """Relative size of singular values that are only rounding errors.
+
+    The default of ``scipy.linalg.lstsq`` is too small for this."""
+    return max(A.shape) * np.finfo(np.float64).eps
+
+
 def right_mul_pinv(A, B, cond=None):
     """Compute numerically stable product ``A@np.linalg.pinv(B)``"""
+    if cond is None:
+        cond = _pinv_cutoff(B)
     lstsq = scipy.linalg.lstsq(B.T, A.T, cond=cond)
 
     return lstsq[0].T
@@ -113,6 +122,8 @@ def right_mul_pinv(A, B, cond=None):
 
 def left_mul_pinv(A, B, cond=None):
     """Compute numerically stable product ``np.linalg.pinv(A)@B``"""
+    if cond is None:
+        cond = _pinv_cutoff(A)
     lstsq = scipy.linalg.lstsq(A, B, cond=cond)
 
     return lstsq[0]
-- 
2.43.0


From 129c4d90887d3f7088d389c9bdde06e18519581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 39/43] fix: experiments with parameters of mixed kinds were
 repeated after reading the log

---
 scripts/experiment_base.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/scripts/experiment_base.py b/scripts/experiment_base.py
index c78b75c..ef765a3 100644
--- a/scripts/experiment_base.py
+++ b/scripts/experiment_base.py
@@ -20,6 +20,18 @@ def read_data(filename: str) -> pd.DataFrame:
     )
 
 
+def is_same_value(recorded, value) -> bool:
+    """Whether a recorded parameter has this value
+
+    A column with e.g. numbers and ``None`` is text after reading the file."""
+    if isinstance(recorded, str) != isinstance(value, str):
+        try:
+            return float(recorded) == float(value)
+        except (TypeError, ValueError):
+            return str(recorded) == str(value)
+    return bool(recorded == value)
+
+
 class Experiment:
     data: pd.DataFrame
     filename: str
@@ -52,7 +64,9 @@ class Experiment:
         masks = []
         for column, value in conds.items():
             try:
-                masks.append(self.data[column] == value)
+                masks.append(
+                    self.data[column].map(lambda x: is_same_value(x, value))
+                )
             except KeyError:
                 return False
         mask = reduce(lambda x, y: x & y, masks)
-- 
2.43.0


From 0f379476005a6e4af2ab71d2d97fc9b5ed483733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 40/43] fix: root-mean-square errors of tensors with more than
 2^63 entries overflowed

---
 tt_sketch/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index 05660ed..f61085d 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -76,7 +76,7 @@ class Tensor(ABC):
                 return np.inf
             error /= other_norm
         if rmse:
-            error /= np.sqrt(np.prod(self.shape))
+            error /= np.sqrt(np.prod(self.shape, dtype=float))
         return error
 
     @property
@@ -604,7 +604,7 @@ class TensorTrain(Tensor):
                     return np.inf
                 error /= other_norm
             if rmse:
-                error /= np.sqrt(np.prod(self.shape))
+                error /= np.sqrt(np.prod(self.shape, dtype=float))
             return error
         else:
             return super().error(other, relative=relative, rmse=rmse, fast=fast)
-- 
2.43.0


From 2fd0374ee0a78bc84358157665195b944b4e7993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 41/43] fix: TT entries could not be gathered at uint64
 positions

---
 tt_sketch/tensor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index f61085d..bdf2864 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -427,9 +427,7 @@ class TensorTrain(Tensor):
         else:
             idx_array = np.array(idx)
         N = idx_array.shape[1]
-        result = np.take(
-            self[0].reshape(self[0].shape[1:]), idx_array[0], axis=0
-        )
+        result = self[0].reshape(self[0].shape[1:])[idx_array[0]]
         for i in range(1, self.ndim):
             r = self[i].shape[2]
             next_step = np.zeros((N, r))
-- 
2.43.0


From 81c41d17b6e1304aebbea54574fb01ab5cd421cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:01 +0000
Subject: [PATCH 42/43] fix: gather entries of CP tensors whose factors have
 different data types

---
 tt_sketch/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tt_sketch/tensor.py b/tt_sketch/tensor.py
index bdf2864..121a79f 100644
--- a/tt_sketch/tensor.py
+++ b/tt_sketch/tensor.py
@@ -728,7 +728,7 @@ class CPTensor(Tensor):
 
         res = 1
         for C, id in zip(self.cores, idx):
-            res *= C[id]
+            res = res * C[id]
         return np.sum(res, axis=1)
 
     def __repr__(self) -> str:
-- 
2.43.0


From 66d2be77c4a029efe5506d33937e353ef3268f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:09 +0000
Subject: [PATCH 43/43] fix: ranks of tensors with more than 2^63 entries were
 wrong for NumPy shapes

---
 tt_sketch/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tt_sketch/utils.py b/tt_sketch/utils.py
index 29946f5..7f8b44f 100644
--- a/tt_sketch/utils.py
+++ b/tt_sketch/utils.py
@@ -149,7 +149,9 @@ def trim_ranks(
     iteratively reduced  for each edge to satisfy these two requirements until
     the requirements are all satisfied.
     """
-    ranks_trimmed = list(ranks)
+    # Products of NumPy integers can overflow
+    dims = tuple(int(d) for d in dims)
+    ranks_trimmed = [int(r) for r in ranks]
 
     for i, r in enumerate(ranks_trimmed):
         dim_left = reduce(mul, dims[: i + 1], 1)
-- 
2.43.0

