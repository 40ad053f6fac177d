From 310b6028a06cc4345a4a00a94e927f7ce7453193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 01/42] fix: generators of a MulIrrep of multiplicity zero

---
 lie_nn/_src/reduced_rep.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index 98eb03c..10c3a30 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -30,14 +30,14 @@ class MulIrrep(Rep):
 
     def continuous_generators(self) -> np.ndarray:
         X = self.rep.continuous_generators()
-        if X.shape[0] == 0:
-            return np.empty((0, self.dim, self.dim))
+        if X.shape[0] == 0 or self.mul == 0:
+            return np.empty((X.shape[0], self.dim, self.dim))
         return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in X], axis=0)
 
     def discrete_generators(self) -> np.ndarray:
         H = self.rep.discrete_generators()
-        if H.shape[0] == 0:
-            return np.empty((0, self.dim, self.dim))
+        if H.shape[0] == 0 or self.mul == 0:
+            return np.empty((H.shape[0], self.dim, self.dim))
         return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in H], axis=0)
 
     def create_trivial(self) -> Rep:
-- 
2.43.0


From bfd7c9f0e13686b6c3a000a9c7181e460dee8d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 02/42] fix: continuous generators of a ReducedRep of a finite
 group

---
 lie_nn/_src/reduced_rep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index 10c3a30..9a458b0 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -110,6 +110,8 @@ class ReducedRep(Rep):
         return self._A
 
     def continuous_generators(self) -> np.ndarray:
+        if self.lie_dim == 0:
+            return np.empty((0, self.dim, self.dim))
         Xs = []
         for i in range(self.lie_dim):
             X = direct_sum(*[mul_ir.continuous_generators()[i] for mul_ir in self.irreps])
-- 
2.43.0


From ab0fbaec23cab5a3c523e71c561b406f78765b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 03/42] fix: operand order of tensor_product(ReducedRep,
 MulIrrep)

---
 lie_nn/_src/tensor_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index 603f91e..b8bd592 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -114,7 +114,7 @@ def tensor_product(mulirrep1: MulIrrep, rep2: ReducedRep) -> ReducedRep:  # noqa
 
 @dispatch(ReducedRep, MulIrrep)
 def tensor_product(rep1: ReducedRep, mulirrep2: MulIrrep) -> ReducedRep:  # noqa: F811
-    return tensor_product(ReducedRep(A=mulirrep2.A, irreps=(mulirrep2,), Q=None), rep1)
+    return tensor_product(rep1, ReducedRep(A=mulirrep2.A, irreps=(mulirrep2,), Q=None))
 
 
 @dispatch(ReducedRep, TabulatedIrrep)
-- 
2.43.0


From 2494732028b6b73b99cd5fde13ebbd243f048206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 04/42] fix: create_trivial of a product of tabulated irreps

---
 lie_nn/_src/group_product.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lie_nn/_src/group_product.py b/lie_nn/_src/group_product.py
index e5ad37e..19e1e3f 100644
--- a/lie_nn/_src/group_product.py
+++ b/lie_nn/_src/group_product.py
@@ -81,6 +81,9 @@ class TabulatedIrrepProduct(TabulatedIrrep):
         )
         return C
 
+    def create_trivial(self) -> "TabulatedIrrepProduct":
+        return TabulatedIrrepProduct(self.rep1.create_trivial(), self.rep2.create_trivial())
+
     @property
     def dim(rep: "TabulatedIrrepProduct") -> int:
         return rep.rep1.dim * rep.rep2.dim
-- 
2.43.0


From 655f5220fdfe389994240c7f24388d10cc3ef574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 05/42] fix: products of SU(N) irreps stay in their class

---
 lie_nn/_src/irreps/sun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index cd0ace2..e63e560 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -454,7 +454,7 @@ class SUN(TabulatedIrrep):
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SUN", rep2: "SUN") -> List["SUN"]:
-        return map(SUN, sorted(set(mul_rep(rep1.S, rep2.S))))
+        return map(type(rep1), sorted(set(mul_rep(rep1.S, rep2.S))))
 
     @classmethod
     def clebsch_gordan(cls, rep1: "SUN", rep2: "SUN", rep3: "SUN") -> np.ndarray:
-- 
2.43.0


From 1cd0c1db22e07bb8490905ee443811d596c83a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 06/42] fix: block_diagonal keeps the imaginary part

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 93ec850..3085b0e 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -162,7 +162,7 @@ def vmap(
 def block_diagonal(As: List[np.array]):
     size1 = sum([As[i].shape[1] for i in range(len(As))])
     size2 = sum([As[i].shape[2] for i in range(len(As))])
-    R = np.zeros((As[0].shape[0], size1, size2))
+    R = np.zeros((As[0].shape[0], size1, size2), dtype=np.result_type(float, *As))
     shape_x = 0
     shape_y = 0
     for i in range(len(As)):
-- 
2.43.0


From 834ca99574a2270f3c268dcb8d500dc75c920889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 07/42] fix: extend_basis(returns="E") of a full rank matrix

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 3085b0e..7938238 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -258,7 +258,7 @@ def extend_basis(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x, returns="
     if returns == "Q":
         return np.stack(Q)
     if returns == "E":
-        return np.stack(E)
+        return np.stack(E) if len(E) > 0 else np.empty((0, A.shape[1]), dtype=A.dtype)
 
 
 def nullspace(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x) -> np.ndarray:
-- 
2.43.0


From 4d8ed5b7219d517f1df9548dde11c835989c3a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 08/42] fix: check_algebra_vs_generators without generators

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 7938238..3e6c073 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -442,7 +442,7 @@ def basis_intersection(
 def check_algebra_vs_generators(
     A: np.ndarray, X: np.ndarray, rtol: float = 1e-10, atol: float = 1e-10, assert_: bool = False
 ):
-    left_side = vmap(vmap(commutator, (0, None), 0), (None, 0), 1)(X, X)
+    left_side = commutator(X[:, None], X[None, :])
     right_side = np.einsum("ijk,kab->ijab", A, X)
     if assert_:
         np.testing.assert_allclose(left_side, right_side, rtol=rtol, atol=atol)
-- 
2.43.0


From 0c9cba038381c3b8ea4ea8d6b617729211fda6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 09/42] fix: infer_algebra_from_generators without generators

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 3e6c073..9694709 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -470,7 +470,7 @@ def infer_algebra_from_generators(
         np.ndarray: If successful, the algebra. Shape ``(n, n, n)``.
     """
     n = X.shape[0]
-    pinv = np.linalg.pinv(X.reshape((n, -1)))
+    pinv = np.linalg.pinv(X.reshape((n, X.shape[1] * X.shape[2])))
 
     algebra = np.zeros((n, n, n))
     for i in range(n):
-- 
2.43.0


From e7c33df20fdd47fce2256c8597b7d412e08321f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 10/42] fix: unique_with_tol of integer arrays

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 9694709..40a89a4 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -539,7 +539,7 @@ def unique_with_tol(a: np.array, *, tol: float):
 
     centers = np.zeros((np.max(inverses) + 1, a.shape[1]), dtype=a.dtype)
     np.add.at(centers, inverses, a)
-    centers /= np.bincount(inverses)[:, None]
+    centers = centers / np.bincount(inverses)[:, None]
 
     centers = centers.reshape(len(centers), *shape[1:])
     return centers, inverses
-- 
2.43.0


From 8c7fbfeec6e56ed2fa6c64cd7be192046c5d5f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 11/42] fix: basis_intersection of complex bases

---
 lie_nn/_src/util.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 40a89a4..10812d0 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -421,8 +421,12 @@ def basis_intersection(
 
     p = np.concatenate(
         [
-            np.concatenate([basis1 @ basis1.T, -basis1 @ basis2.T], axis=1),
-            np.concatenate([-basis2 @ basis1.T, basis2 @ basis2.T], axis=1),
+            np.concatenate(
+                [np.conj(basis1) @ basis1.T, -np.conj(basis1) @ basis2.T], axis=1
+            ),
+            np.concatenate(
+                [-np.conj(basis2) @ basis1.T, np.conj(basis2) @ basis2.T], axis=1
+            ),
         ],
         axis=0,
     )
@@ -432,10 +436,10 @@ def basis_intersection(
     v = v[:, w < epsilon]
 
     x1 = v[: basis1.shape[0], :]
-    x1 = gram_schmidt(x1 @ x1.T, epsilon=epsilon, round_fn=round_fn)
+    x1 = gram_schmidt(np.conj(x1) @ x1.T, epsilon=epsilon, round_fn=round_fn)
 
     x2 = v[basis1.shape[0] :, :]
-    x2 = gram_schmidt(x2 @ x2.T, epsilon=epsilon, round_fn=round_fn)
+    x2 = gram_schmidt(np.conj(x2) @ x2.T, epsilon=epsilon, round_fn=round_fn)
     return x1, x2
 
 
-- 
2.43.0


From a4720865a41377f926008b30a0f29e9bd59b6c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 12/42] fix: basis_intersection with an empty basis

---
 lie_nn/_src/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 10812d0..ab3444e 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -416,8 +416,8 @@ def basis_intersection(
         array([[1., 0., 0.]])
     """
     assert basis1.shape[1:] == basis2.shape[1:]
-    basis1 = np.reshape(basis1, (basis1.shape[0], -1))
-    basis2 = np.reshape(basis2, (basis2.shape[0], -1))
+    basis1 = np.reshape(basis1, (basis1.shape[0], prod(basis1.shape[1:])))
+    basis2 = np.reshape(basis2, (basis2.shape[0], prod(basis2.shape[1:])))
 
     p = np.concatenate(
         [
-- 
2.43.0


From 99f918c3be1fe771e5b1886b795ea70511d92bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 13/42] fix: reduced_tensor_product_basis without solution

---
 lie_nn/_src/reduced_tensor_product.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index 8d113f5..d9c6c01 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -28,7 +28,10 @@ class IrrepsArray:
 
     @property
     def array(self):
-        return np.concatenate([np.reshape(x, x.shape[:-2] + (-1,)) for x in self.list], axis=-1)
+        return np.concatenate(
+            [np.reshape(x, x.shape[:-2] + (x.shape[-2] * x.shape[-1],)) for x in self.list],
+            axis=-1,
+        )
 
     def __init__(self, *, irreps, list):
         assert len(irreps) == len(list)
@@ -343,7 +346,8 @@ def constrain_rotation_basis_by_permutation_basis(
     """
     assert all(x.shape[:-2] == permutation_basis.shape[1:] for x in rotation_basis.list)
 
-    perm = np.reshape(permutation_basis, (permutation_basis.shape[0], -1))  # (free, dim)
+    dim = prod(permutation_basis.shape[1:])
+    perm = np.reshape(permutation_basis, (permutation_basis.shape[0], dim))  # (free, dim)
 
     new_irreps: List[Tuple[int, TabulatedIrrep]] = []
     new_list: List[np.ndarray] = []
@@ -351,7 +355,7 @@ def constrain_rotation_basis_by_permutation_basis(
     for rotation_basis_mul_ir, rot_basis in zip(rotation_basis.irreps, rotation_basis.list):
         mul, ir = rotation_basis_mul_ir.mul, rotation_basis_mul_ir.rep
         R = rot_basis[..., 0]
-        R = np.reshape(R, (-1, mul)).T  # (mul, dim)
+        R = np.reshape(R, (dim, mul)).T  # (mul, dim)
 
         perm_opt = perm[~np.all(perm[:, ~np.all(R == 0, axis=0)] == 0, axis=1)]
         P, _ = basis_intersection(R, perm_opt, epsilon=epsilon, round_fn=round_fn)
@@ -360,6 +364,10 @@ def constrain_rotation_basis_by_permutation_basis(
             new_irreps.append((P.shape[0], ir))
             new_list.append(np.einsum("vu,...ui->...vi", P, rot_basis))
 
+    if len(new_irreps) == 0:  # no solution, zero copies of an irrep keep the group and the shape
+        new_irreps.append((0, rotation_basis.irreps[0].rep))
+        new_list.append(rotation_basis.list[0][..., :0, :])
+
     return IrrepsArray(irreps=tuple(MulIrrep(mul, ir) for mul, ir in new_irreps), list=new_list)
 
 
@@ -393,7 +401,8 @@ def reduce_subgroup_permutation(
         return len(base)
     permutation_basis = reduce_permutation_matrix(base, sub_dims)
     return np.reshape(
-        permutation_basis, (-1,) + tuple(dims[i] if i in sub_f0 else 1 for i in range(len(dims)))
+        permutation_basis,
+        (len(base),) + tuple(dims[i] if i in sub_f0 else 1 for i in range(len(dims))),
     )
 
 
-- 
2.43.0


From 6c7369d7efa14ba099ccf74fad54374520d1eec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 14/42] fix: reduced_tensor_product_basis accepts equal
 representations on related indices

---
 lie_nn/_src/reduced_tensor_product.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index d9c6c01..3e0dfba 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -92,6 +92,14 @@ def _to_reducedrep(irreps) -> ReducedRep:
     return irreps
 
 
+def _is_same_rep(rep1: ReducedRep, rep2: ReducedRep) -> bool:
+    if tuple(rep1.irreps) != tuple(rep2.irreps):
+        return False
+    if rep1.Q is None or rep2.Q is None:
+        return rep1.Q is None and rep2.Q is None
+    return np.array_equal(rep1.Q, rep2.Q)
+
+
 def reduced_tensor_product_basis(
     formula_or_irreps_list: Union[str, List[ReducedRep]],
     *,
@@ -139,7 +147,11 @@ def reduced_tensor_product_basis(
     for _sign, p in perm_repr:
         f = "".join(f0[i] for i in p)
         for i, j in zip(f0, f):
-            if i in irreps_dict and j in irreps_dict and irreps_dict[i] != irreps_dict[j]:
+            if (
+                i in irreps_dict
+                and j in irreps_dict
+                and not _is_same_rep(irreps_dict[i], irreps_dict[j])
+            ):
                 raise RuntimeError(f"irreps of {i} and {j} should be the same")
             if i in irreps_dict:
                 irreps_dict[j] = irreps_dict[i]
-- 
2.43.0


From 16ba873b52db0506cd06221518ceb9796fc73b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 15/42] fix: reduced_tensor_product_basis of the contradictory
 formula i=-i

---
 lie_nn/_src/reduced_tensor_product.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index 3e0dfba..5d0ea74 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -232,6 +232,11 @@ def _reduced_tensor_product_basis(
         if len(bases) == 1:
             f, b = bases[0]
             assert f == frozenset(range(len(irreps_tuple)))
+            if len(perm_repr) > 1:  # i=-i
+                p = reduce_subgroup_permutation(f, perm_repr, dims)
+                b = constrain_rotation_basis_by_permutation_basis(
+                    b, p, epsilon=epsilon, round_fn=round_to_sqrt_rational
+                )
             return b.sorted().simplify()
 
         if len(bases) == 2:
-- 
2.43.0


From 35ac1fe3f528f2d860a873e1481ab5dc60f81261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 16/42] fix: decompose_rep_into_irreps restricts to complex
 subspaces correctly

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index ab3444e..431e993 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -584,7 +584,7 @@ def decompose_rep_into_irreps(
         B = gram_schmidt(W.T, epsilon=epsilon)  # Make an orthonormal projector
         B = gram_schmidt(B.T.conj() @ B, epsilon=epsilon, round_fn=round_fn)  # Make it sparse!!
 
-        Ys += [B @ X @ B.T.conj()]
+        Ys += [B.conj() @ X @ B.T]
     return Ys
 
 
-- 
2.43.0


From 5d92399a58a2761306cf0d4e051ec65e44d0d07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 17/42] fix: decompose_rep_into_irreps tolerates rounding
 errors in the eigenvalues

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 431e993..9d3014e 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -577,7 +577,7 @@ def decompose_rep_into_irreps(
     w = np.random.rand(len(Q))
     M = np.einsum("n,nij->ij", w, Q)
     val, vec = np.linalg.eig(M)
-    stable_spaces = eigenspaces(val, vec, epsilon=epsilon)
+    stable_spaces = eigenspaces(val, vec)
 
     Ys = []
     for _, W in stable_spaces:
-- 
2.43.0


From 59d4ce8c73c19c2e4ebd2395b409388b5f5e069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 18/42] fix: reduce collects repeated irreps

---
 lie_nn/_src/reduce.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/reduce.py b/lie_nn/_src/reduce.py
index 09d93e7..d047306 100644
--- a/lie_nn/_src/reduce.py
+++ b/lie_nn/_src/reduce.py
@@ -31,14 +31,18 @@ def reduce(rep: Rep) -> ReducedRep:  # noqa: F811
     Ys = sorted(Ys, key=lambda x: x.shape[1])
     d = rep.lie_dim
     Qs = []
+    muls = []
     irs = []
     for Y in Ys:
         ir = GenericRep(rep.A, Y[:d], Y[d:])
+        if any(ir.dim == x.dim and len(infer_change_of_basis(ir, x)) > 0 for x in irs):
+            continue  # another copy of an irrep already taken into account
         Q = infer_change_of_basis(ir, rep)
-        Q = np.einsum("mij->imj", Q).reshape((rep.dim, ir.dim))
+        muls.append(Q.shape[0])
+        Q = np.einsum("mij->imj", Q).reshape((rep.dim, Q.shape[0] * ir.dim))
         Qs.append(Q)
         irs.append(ir)
 
     Q = np.concatenate(Qs, axis=1)
-    rep = ReducedRep(rep.A, tuple(MulIrrep(1, ir) for ir in irs), Q)
+    rep = ReducedRep(rep.A, tuple(MulIrrep(mul, ir) for mul, ir in zip(muls, irs)), Q)
     return rep
-- 
2.43.0


From a82b3a17da6add254f53f4c7ae74e6d3470a6176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:08 +0000
Subject: [PATCH 19/42] fix: SO13 Clebsch-Gordan coefficients are not rounded
 in intermediate steps

---
 lie_nn/_src/irreps/so13.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lie_nn/_src/irreps/so13.py b/lie_nn/_src/irreps/so13.py
index 9b32c92..ad85d11 100644
--- a/lie_nn/_src/irreps/so13.py
+++ b/lie_nn/_src/irreps/so13.py
@@ -38,9 +38,9 @@ class SO13(
     @classmethod
     def clebsch_gordan(cls, rep1: "SO13", rep2: "SO13", rep3: "SO13") -> np.ndarray:
         # Call the generic implementation
-        return lie.clebsch_gordan(
-            lie.GenericRep.from_rep(rep1), rep2, rep3, round_fn=lie.util.round_to_sqrt_rational
-        )
+        # and round only the result: rounding its intermediate steps is not accurate enough
+        C = lie.clebsch_gordan(lie.GenericRep.from_rep(rep1), rep2, rep3)
+        return lie.util.round_to_sqrt_rational(C)
 
     @property
     def dim(rep: "SO13") -> int:
-- 
2.43.0


From 4062fbb8d5649a31de1855cf202939c381cc8acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 20/42] fix: fundamental weights of the root systems D

---
 lie_nn/_src/lie_algebra_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/lie_algebra_utils.py b/lie_nn/_src/lie_algebra_utils.py
index ace02ad..06e52ba 100644
--- a/lie_nn/_src/lie_algebra_utils.py
+++ b/lie_nn/_src/lie_algebra_utils.py
@@ -78,7 +78,7 @@ def RootsWeightsD(rank):
         weights_2 = np.concatenate(([0.5 * sum(epsilon) - epsilon[rank - 1]], [0.5 * sum(epsilon)]))
     else:
         weights_2 = np.concatenate(
-            (weight_sum, [0.5 * sum(epsilon) - epsilon[rank - 1]], weight_sum, [0.5 * sum(epsilon)])
+            (weight_sum, [0.5 * sum(epsilon) - epsilon[rank - 1]], [0.5 * sum(epsilon)])
         )
     weights_3 = np.concatenate(([1, 1], np.zeros(rank - 2)))
     dynkin = " " * 4 * (rank - 2) + "0\n"
-- 
2.43.0


From 3c02bd3aef3d77e8f648bff1b0a2bd2b10ebae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 21/42] fix: SON.dim is rounded, not truncated

---
 lie_nn/_src/irreps/son.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index d0e5bbc..524f8ed 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -50,7 +50,7 @@ class SON(TabulatedIrrep):
     @property
     def dim(rep: "SON") -> int:
         positiveroots, weylvector = root_weights(len(rep.S))[0], root_weights(len(rep.S))[2]
-        return int(weyl_dim(weights(rep), positiveroots, weylvector))
+        return round(weyl_dim(weights(rep), positiveroots, weylvector))
 
     def is_scalar(rep: "SON") -> bool:
         """Equivalent to ``S=(0,...,0)``"""
-- 
2.43.0


From ffe1f8dfe60d7dd5c5e8bd26eff7b7fa437c42f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 22/42] fix: SPN.dim is rounded, not truncated

---
 lie_nn/_src/irreps/spn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/irreps/spn.py b/lie_nn/_src/irreps/spn.py
index 0e27c8c..6c4f000 100644
--- a/lie_nn/_src/irreps/spn.py
+++ b/lie_nn/_src/irreps/spn.py
@@ -46,7 +46,7 @@ class SPN(TabulatedIrrep):
     @property
     def dim(rep: "SPN") -> int:
         positiveroots, weylvector = root_weights(len(rep.S))[0], root_weights(len(rep.S))[2]
-        return int(weyl_dim(weights(rep), positiveroots, weylvector))
+        return round(weyl_dim(weights(rep), positiveroots, weylvector))
 
     def is_scalar(rep: "SPN") -> bool:
         """Equivalent to ``S=(0,...,0)``"""
-- 
2.43.0


From 0680ee4a818f7cc8ee2227d90e10085d5ec30a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 23/42] fix: SON_adjoint of odd size preserves the quadratic
 form

---
 lie_nn/_src/irreps/son.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index 524f8ed..5513d86 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -141,7 +141,7 @@ class SON_adjoint(lie.Rep):
                 ]
             )
             Us = np.stack(
-                [E(i, self.n - 1, self.n) - E(self.n - 1, i, self.n) for i in range(self.n)]
+                [E(i, self.n - 1, self.n) - E(self.n - 1, n2 + i, self.n) for i in range(n2)]
             )
             Vs = np.stack(
                 [E(n2 + i, self.n - 1, self.n) - E(self.n - 1, i, self.n) for i in range(n2)]
-- 
2.43.0


From 78ed8c436c27b72352e883e13082d21444872dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:08 +0000
Subject: [PATCH 24/42] fix: SON_adjoint(3)

---
 lie_nn/_src/irreps/son.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index 5513d86..c50e8e1 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -116,30 +116,30 @@ class SON_adjoint(lie.Rep):
         else:
             n2 = (self.n - 1) // 2
             Hs = np.stack([E(i, i, self.n) - E(i + n2, i + n2, self.n) for i in range(n2)])
-            Xs = np.stack(
+            Xs = np.array(
                 [
                     E(i, j, self.n) - E(n2 + j, n2 + i, self.n)
                     for i in range(n2)
                     for j in range(n2)
                     if i != j
                 ]
-            )
-            Ys = np.stack(
+            ).reshape(-1, self.n, self.n)
+            Ys = np.array(
                 [
                     E(i, n2 + j, self.n) - E(j, n2 + i, self.n)
                     for i in range(n2)
                     for j in range(n2)
                     if i != j
                 ]
-            )
-            Zs = np.stack(
+            ).reshape(-1, self.n, self.n)
+            Zs = np.array(
                 [
                     E(n2 + i, j, self.n) - E(n2 + j, i, self.n)
                     for i in range(n2)
                     for j in range(n2)
                     if i != j
                 ]
-            )
+            ).reshape(-1, self.n, self.n)
             Us = np.stack(
                 [E(i, self.n - 1, self.n) - E(self.n - 1, n2 + i, self.n) for i in range(n2)]
             )
-- 
2.43.0


From 3ee48ebe76409276e54072ec1185e34c3edfb014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 25/42] fix: SU(N) Clebsch-Gordan coefficients with weight or
 outer multiplicities

---
 lie_nn/_src/irreps/sun.py | 84 ++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 54 deletions(-)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index e63e560..687d19e 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -304,55 +304,29 @@ def clebsch_gordan_eldest(S1: WEIGHT, S2: WEIGHT, M_3_eldest: GT_PATTERN) -> np.
     )
 
 
-def search_state(M_list: List[GT_PATTERN]) -> Tuple[GT_PATTERN, GT_PATTERN, int]:
-    M0 = M_list[0]
-    n = len(M0)
-    S3 = M0[0]
-
-    for Mc in M_list:
-        for Mp in S_to_Ms(S3):
-            if Mp in M_list:
-                continue
-
-            for l in range(n - 1):
-                if lower_ladder(l, Mp, Mc) != 0:
-                    return (Mc, Mp, l)
-
-    raise ValueError("No state found")
+def construct_lower_cg(
+    S1: WEIGHT, S2: WEIGHT, Ns: List[GT_PATTERN], S3: WEIGHT, C: np.array
+) -> np.ndarray:
+    """Coefficients of all the GT-patterns of one weight from the ones of the higher weights.
 
+    Solves for all the parents ``Mc`` and all ``l``
 
-def construct_lower_cg(
-    S1: WEIGHT,
-    S2: WEIGHT,
-    S3: WEIGHT,
-    Mp: GT_PATTERN,
-    Mc: GT_PATTERN,
-    l: int,
-    alpha: int,
-    C: np.array,
-) -> Tuple[np.ndarray, int]:
-    dimS1 = dim(S1)
-    dimS2 = dim(S2)
-    mc, mp = M_to_index(Mc), M_to_index(Mp)
-    CG = np.zeros((dimS1, dimS2))
-    for m1 in range(dimS1):
-        for m2 in range(dimS2):
-            for n1 in range(dimS1):
-                for n2 in range(dimS2):
-                    if n2 == m2:
-                        CG[n1, n2] += (
-                            C[alpha, m1, m2, mc]
-                            * lower_ladder(l, index_to_M(S1, n1), index_to_M(S1, m1))
-                            * upper_ladder(l, index_to_M(S3, mc), index_to_M(S3, mp))
-                        )
-                    if n1 == m1:
-                        CG[n1, n2] += (
-                            C[alpha, m1, m2, mc]
-                            * lower_ladder(l, index_to_M(S2, n2), index_to_M(S2, m2))
-                            * upper_ladder(l, index_to_M(S3, mc), index_to_M(S3, mp))
-                        )
-
-    return CG / np.linalg.norm(CG)
+        sum_N <N| J(l)- |Mc> C[N] = (J(l)- x 1 + 1 x J(l)-) C[Mc]
+    """
+    Jm1 = lower_ladder_matrices(S1)
+    Jm2 = lower_ladder_matrices(S2)
+    A = []
+    B = []
+    for mc, Mc in enumerate(S_to_Ms(S3)):
+        for l in range(len(S3) - 1):
+            a = [lower_ladder(l, N, Mc) for N in Ns]
+            if any(x != 0 for x in a):
+                A.append(a)
+                B.append(
+                    np.einsum("ij,ajk->aik", Jm1[l], C[..., mc])
+                    + np.einsum("kl,ail->aik", Jm2[l], C[..., mc])
+                )
+    return np.einsum("nb,baij->aijn", np.linalg.pinv(np.array(A)), np.array(B))
 
 
 def clebsch_gordan_matrix(S1: WEIGHT, S2: WEIGHT, S3: WEIGHT):
@@ -368,13 +342,15 @@ def clebsch_gordan_matrix(S1: WEIGHT, S2: WEIGHT, S3: WEIGHT):
         ),
         axis=-1,
     )
-    M_list = [M_eldest]
-    for alpha in range(C.shape[0]):
-        while len(M_list) != dimS3:
-            Mc, Mp, l = search_state(M_list)
-            mp = M_to_index(Mp)
-            C[alpha, :, :, mp] = construct_lower_cg(S1, S2, S3, Mp, Mc, l, alpha, C)
-            M_list.append(Mp)
+    if C.shape[0] == 0:
+        return C
+
+    # a lowering operator increases the pattern weight in the lexicographic order
+    Ms = sorted(S_to_Ms(S3), key=M_to_p_weight)
+    for w, Ns in itertools.groupby(Ms, key=M_to_p_weight):
+        if w != M_to_p_weight(M_eldest):
+            Ns = list(Ns)
+            C[..., [M_to_index(N) for N in Ns]] = construct_lower_cg(S1, S2, Ns, S3, C)
     return C
 
 
-- 
2.43.0


From 28360c8461f445820f27cf5236832bee98aeab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 26/42] fix: tensor products of the half-integer SU2Real irreps

---
 lie_nn/_src/tensor_product.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index b8bd592..9dd2487 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -24,6 +24,22 @@ def tensor_product(rep1: Rep, rep2: Rep) -> GenericRep:
     )
 
 
+def _disjoint_solutions(CG: np.ndarray) -> np.ndarray:
+    """Keep the solutions whose images are in direct sum.
+
+    The real irreps of complex or quaternionic type commute with more than the scalars: they have
+    several linearly independent solutions with the same image.
+    """
+    n, d = CG.shape[:2]
+    if n <= 1:
+        return CG
+    kept = []
+    for c in CG.reshape(n, d, -1):
+        if np.linalg.matrix_rank(np.concatenate(kept + [c])) == (len(kept) + 1) * d:
+            kept.append(c)
+    return np.stack(kept).reshape((len(kept),) + CG.shape[1:])
+
+
 @dispatch(TabulatedIrrep, TabulatedIrrep)
 def tensor_product(irrep1: TabulatedIrrep, irrep2: TabulatedIrrep) -> ReducedRep:  # noqa: F811
     assert np.allclose(irrep1.A, irrep2.A)  # same lie algebra
@@ -31,6 +47,7 @@ def tensor_product(irrep1: TabulatedIrrep, irrep2: TabulatedIrrep) -> ReducedRep
     irreps_list = []
     for ir_out in irrep1 * irrep2:
         CG = np.moveaxis(lie.clebsch_gordan(irrep1, irrep2, ir_out), 3, 1)  # [sol, ir3, ir1, ir2]
+        CG = _disjoint_solutions(CG)
         mul = CG.shape[0]
         CG = CG.reshape(CG.shape[0] * CG.shape[1], CG.shape[2] * CG.shape[3])
         CG_list.append(CG)
-- 
2.43.0


From 4e8a54ff1f33cd1f1d89e53af9d2f07495d5802c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 27/42] fix: tensor products of multiples and sums of
 representations that are not tabulated

---
 lie_nn/_src/tensor_product.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index 9dd2487..0b7451c 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -62,7 +62,9 @@ def tensor_product(mulirrep1: MulIrrep, mulirrep2: MulIrrep) -> ReducedRep:  # n
     assert np.allclose(mulirrep1.A, mulirrep2.A)  # same lie algebra
     m1, m2 = mulirrep1.mul, mulirrep2.mul
     tp_irreps = tensor_product(mulirrep1.rep, mulirrep2.rep)
-    Q = tp_irreps.Q
+    if not isinstance(tp_irreps, ReducedRep):  # the parts are not tabulated irreps
+        tp_irreps = ReducedRep.from_irreps([tp_irreps])
+    Q = np.eye(tp_irreps.dim) if tp_irreps.Q is None else tp_irreps.Q
     irreps = tp_irreps.irreps
     Q_out = []
     irreps_out = []
-- 
2.43.0


From bd4ba3e74a79e1bc2fd308b2bf080de73c356501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 28/42] fix: keep the eigenvalues away from the branch cut of
 the square root in make_explicitly_real

---
 lie_nn/_src/real.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/real.py b/lie_nn/_src/real.py
index eefc524..6ec7b8e 100644
--- a/lie_nn/_src/real.py
+++ b/lie_nn/_src/real.py
@@ -14,7 +14,14 @@ def make_explicitly_real(rep: lie.Rep, *, round_fn=lambda x: x):
     if S.shape[0] == 0:
         raise ValueError("The representation is not real")
     assert S.shape[0] == 1
-    rep = lie.change_basis(rep, la.sqrtm(S[0]))
+    # The phase of S is arbitrary. Choose it such that the branch cut of the square root
+    # (the negative real axis) lies in the middle of the largest gap between eigenvalues of S,
+    # otherwise equal eigenvalues can end up on the two sides of the cut.
+    a = np.sort(np.angle(la.eigvals(S[0])))
+    gaps = np.diff(a, append=a[0] + 2 * np.pi)
+    i = np.argmax(gaps)
+    phase = np.exp(1j * (np.pi - (a[i] + gaps[i] / 2)))
+    rep = lie.change_basis(rep, la.sqrtm(S[0] * np.real_if_close(phase)))
     if np.linalg.norm(rep.X.imag) > 1e-10:
         raise ValueError("The representation is not real")
     return rep
-- 
2.43.0


From 7b27c507359f93adbeb67b952383e0deec5dabc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 29/42] fix: do not orthogonalise rounding errors of a
 projector (reduce, is_irreducible)

---
 lie_nn/_src/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 9d3014e..1819fbf 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -290,7 +290,9 @@ def nullspace(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x) -> np.ndarra
     X = vec.T[np.abs(val) < epsilon]
     X = np.conj(X.T) @ X
     X = round_fn(X)
-    X = gram_schmidt(X, round_fn=round_fn, epsilon=epsilon)
+    # X is a projector, the remaining rows are either zero or not small. A tiny epsilon would
+    # make gram_schmidt normalize rounding errors.
+    X = gram_schmidt(X, round_fn=round_fn, epsilon=max(epsilon, 1e-4))
     return X
 
 
@@ -582,7 +584,8 @@ def decompose_rep_into_irreps(
     Ys = []
     for _, W in stable_spaces:
         B = gram_schmidt(W.T, epsilon=epsilon)  # Make an orthonormal projector
-        B = gram_schmidt(B.T.conj() @ B, epsilon=epsilon, round_fn=round_fn)  # Make it sparse!!
+        # Make it sparse!!
+        B = gram_schmidt(B.T.conj() @ B, epsilon=max(epsilon, 1e-4), round_fn=round_fn)
 
         Ys += [B.conj() @ X @ B.T]
     return Ys
-- 
2.43.0


From 0fb13cd2fa90b5f70e06ae56bfd5a5c0291457b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 30/42] fix: SUN.from_string accepts surrounding spaces like
 the other irreps

---
 lie_nn/_src/irreps/sun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index 687d19e..fa3801b 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -426,7 +426,8 @@ class SUN(TabulatedIrrep):
     @classmethod
     def from_string(cls, s: str) -> "SUN":
         # (4,3,2,1,0)
-        m = re.match(r"\((\d+(?:,\d+)*)\)", s)
+        m = re.match(r"\((\d+(?:,\d+)*)\)", s.strip())
+        assert m is not None
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SUN", rep2: "SUN") -> List["SUN"]:
-- 
2.43.0


From bd1919480d352c8e50b0478938ed5dbb37bcf552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 31/42] fix: limit_denominator of a fraction whose denominator
 equals the bound

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 1819fbf..e868f2a 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -74,7 +74,7 @@ def limit_denominator(n, d, max_denominator=1_000_000):
     with np.errstate(over="ignore"):
         mask = np.abs(d1 * (n2 * d0 - n0 * d2)) <= np.abs(d2 * (n1 * d0 - n0 * d1))
     return np.where(
-        d0 < max_denominator,
+        d0 <= max_denominator,
         (n0, d0),
         np.where(mask, (n2, d2), (n1, d1)),
     )
-- 
2.43.0


From fe25df8c03cd8c719e9a250e609277f04655b120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 32/42] fix: jax matrix_power of complex and integer matrices

---
 lie_nn/_src/jax_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/jax_utils.py b/lie_nn/_src/jax_utils.py
index 4e8fee8..ddfc894 100644
--- a/lie_nn/_src/jax_utils.py
+++ b/lie_nn/_src/jax_utils.py
@@ -13,7 +13,7 @@ def static_jax_pytree(cls):
 @jax.jit
 def matrix_power(F, n):
     upper_limit = 32
-    init_carry = n, F, jnp.eye(F.shape[0])
+    init_carry = n, F, jnp.eye(F.shape[0], dtype=F.dtype)
 
     def body(carry, _):
         # One step of the iteration
@@ -24,7 +24,7 @@ def matrix_power(F, n):
 
         # No more computation necessary if n = 0
         # Is there a better way to early break rather than just returning something empty?
-        new_z = jax.lax.cond(new_n, lambda z: z @ z, lambda _: jnp.empty(z.shape), z)
+        new_z = jax.lax.cond(new_n, lambda z: z @ z, lambda z: jnp.empty(z.shape, dtype=z.dtype), z)
 
         return (new_n, new_z, new_result), None
 
-- 
2.43.0


From 285f121d4d7352da8fdaee5803559b027b74a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 33/42] fix: vmap over an empty axis with negative out_axes

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index e868f2a..3cbda4a 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -124,7 +124,7 @@ def vmap(
 ):
     if out_shape is not None:
         out_shape = list(out_shape)
-        out_shape.insert(out_axes, 0)
+        out_shape.insert(out_axes if out_axes >= 0 else len(out_shape) + 1 + out_axes, 0)
 
     def f(*args):
         in_axes_ = in_axes
-- 
2.43.0


From d1511a83e4fd1bb434f4031e15664eb54df08d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 34/42] fix: infer_algebra_from_generators of generators
 independent over the reals only

---
 lie_nn/_src/util.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 3cbda4a..45b9c04 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -476,13 +476,19 @@ def infer_algebra_from_generators(
         np.ndarray: If successful, the algebra. Shape ``(n, n, n)``.
     """
     n = X.shape[0]
-    pinv = np.linalg.pinv(X.reshape((n, X.shape[1] * X.shape[2])))
+
+    def flatten(x):
+        # the structure constants are real: x is a vector of a real vector space
+        x = x.reshape(x.shape[:-2] + (x.shape[-2] * x.shape[-1],))
+        return np.concatenate([x.real, x.imag], axis=-1) if np.iscomplexobj(x) else x
+
+    pinv = np.linalg.pinv(flatten(X))
 
     algebra = np.zeros((n, n, n))
     for i in range(n):
         for j in range(n):
             xij = commutator(X[i], X[j])
-            algebra[i, j] = xij.reshape(-1) @ pinv
+            algebra[i, j] = flatten(xij) @ pinv
 
     algebra = round_fn(algebra)
 
-- 
2.43.0


From b28749941956e528ca3f7abcecec68085e0cdafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 35/42] fix: dimensions of large SO(n) and Sp(n) irreps are
 exact

---
 lie_nn/_src/lie_algebra_utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lie_nn/_src/lie_algebra_utils.py b/lie_nn/_src/lie_algebra_utils.py
index 06e52ba..0749caa 100644
--- a/lie_nn/_src/lie_algebra_utils.py
+++ b/lie_nn/_src/lie_algebra_utils.py
@@ -1,3 +1,6 @@
+import math
+from fractions import Fraction
+
 import numpy as np
 
 
@@ -102,11 +105,11 @@ def cartan_matrix(simple_roots):
 
 
 def weyl_dim(weight, positiveroots, weylvector):
-    return np.prod(
-        [
-            (weight + weylvector).dot(positiveroot) / weylvector.dot(positiveroot)
-            for positiveroot in positiveroots
-        ]
+    # exact, the product of many large ratios is not an integer up to rounding errors otherwise
+    return math.prod(
+        Fraction(float((weight + weylvector).dot(positiveroot)))
+        / Fraction(float(weylvector.dot(positiveroot)))
+        for positiveroot in positiveroots
     )
 
 
-- 
2.43.0


From 70f28566ea08654deb3b1ed3a7d8d957a171134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 36/42] fix: SU2_, SU3 and SU4 validate their weights like SUN

---
 lie_nn/_src/irreps/sun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index fa3801b..f41fa07 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -467,6 +467,7 @@ class SUN(TabulatedIrrep):
 @dataclass(frozen=True)
 class SU2_(SUN):
     def __post_init__(rep):
+        super().__post_init__()
         assert len(rep.S) == 2
 
     @classmethod
@@ -478,6 +479,7 @@ class SU2_(SUN):
 @dataclass(frozen=True)
 class SU3(SUN):
     def __post_init__(rep):
+        super().__post_init__()
         assert len(rep.S) == 3
 
     @classmethod
@@ -490,6 +492,7 @@ class SU3(SUN):
 @dataclass(frozen=True)
 class SU4(SUN):
     def __post_init__(rep):
+        super().__post_init__()
         assert len(rep.S) == 4
 
     @classmethod
-- 
2.43.0


From c02303407a0a9438368af8aebb1da4480804002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 37/42] fix: ReducedRep.from_irreps refuses different numbers
 of discrete generators

---
 lie_nn/_src/reduced_rep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index 9a458b0..235e414 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -94,8 +94,10 @@ class ReducedRep(Rep):
 
             if A is None:
                 A = mul_ir.algebra()
+                num_H = len(mul_ir.discrete_generators())
             else:
                 assert np.allclose(A, mul_ir.algebra())
+                assert num_H == len(mul_ir.discrete_generators())  # same discrete dimension
 
         dim = sum(mul_ir.dim for mul_ir in irreps)
         assert Q is None or Q.shape == (dim, dim)
-- 
2.43.0


From 0712830c3b71c7fb2841e9e815693f43f4ea30cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 38/42] fix: algebras of different dimensions are different,
 even when their arrays broadcast

---
 lie_nn/_src/direct_sum.py            | 1 +
 lie_nn/_src/infer_change_of_basis.py | 1 +
 lie_nn/_src/reduced_rep.py           | 1 +
 lie_nn/_src/tensor_product.py        | 1 +
 4 files changed, 4 insertions(+)

diff --git a/lie_nn/_src/direct_sum.py b/lie_nn/_src/direct_sum.py
index 02c3b34..9a880bd 100644
--- a/lie_nn/_src/direct_sum.py
+++ b/lie_nn/_src/direct_sum.py
@@ -7,6 +7,7 @@ from .util import direct_sum as _direct_sum
 
 @dispatch(Rep, Rep)
 def direct_sum(rep1: Rep, rep2: Rep) -> GenericRep:
+    assert rep1.A.shape == rep2.A.shape
     assert np.allclose(rep1.A, rep2.A)  # same lie algebra
     assert rep1.H.shape[0] == rep2.H.shape[0]  # same discrete dimension
     return GenericRep(
diff --git a/lie_nn/_src/infer_change_of_basis.py b/lie_nn/_src/infer_change_of_basis.py
index 21aecab..45e6326 100644
--- a/lie_nn/_src/infer_change_of_basis.py
+++ b/lie_nn/_src/infer_change_of_basis.py
@@ -26,6 +26,7 @@ def infer_change_of_basis(rep1: Rep, rep2: Rep, round_fn=lambda x: x) -> np.ndar
         The change of basis matrix ``Q``.
     """
     # Check the group structure
+    assert rep1.algebra().shape == rep2.algebra().shape
     assert np.allclose(rep1.algebra(), rep2.algebra())
 
     Y1 = np.concatenate([rep1.continuous_generators(), rep1.discrete_generators()])
diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index 235e414..0190853 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -96,6 +96,7 @@ class ReducedRep(Rep):
                 A = mul_ir.algebra()
                 num_H = len(mul_ir.discrete_generators())
             else:
+                assert A.shape == mul_ir.algebra().shape
                 assert np.allclose(A, mul_ir.algebra())
                 assert num_H == len(mul_ir.discrete_generators())  # same discrete dimension
 
diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index 0b7451c..37894cd 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -10,6 +10,7 @@ from .rep import GenericRep, Rep
 
 @dispatch(Rep, Rep)
 def tensor_product(rep1: Rep, rep2: Rep) -> GenericRep:
+    assert rep1.A.shape == rep2.A.shape
     assert np.allclose(rep1.A, rep2.A)  # same lie algebra
     X1, H1, I1 = rep1.X, rep1.H, np.eye(rep1.dim)
     X2, H2, I2 = rep2.X, rep2.H, np.eye(rep2.dim)
-- 
2.43.0


From 1dd8e167fd3de90fcdb52b7be9636108aa831d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:10 +0000
Subject: [PATCH 39/42] fix: infer_change_of_basis and reduce of a group with
 no generators

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 45b9c04..9a7c378 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -376,7 +376,7 @@ def infer_change_of_basis(
     assert X1.shape == (n, d1, d1)
     assert X2.shape == (n, d2, d2)
 
-    As = []
+    As = [np.zeros((0, d1 * d2))]
     for x1, x2 in zip(X1, X2):
         # X1 @ S - S @ X2 = 0
         # X1 @ S - (X2.T @ S.T).T = 0
-- 
2.43.0


From bac6f93498532b50c38bbce9cb64a369eea1de64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 40/42] fix: jax exp_map inverts the discrete generators for
 negative exponents

---
 lie_nn/_src/jax_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/jax_utils.py b/lie_nn/_src/jax_utils.py
index ddfc894..f7421dc 100644
--- a/lie_nn/_src/jax_utils.py
+++ b/lie_nn/_src/jax_utils.py
@@ -42,7 +42,11 @@ def exp_map(
     rep: "TabulatedIrrep", continuous_params: jnp.ndarray, discrete_params: jnp.ndarray
 ) -> jnp.ndarray:
     # return a matrix of shape ``(rep.dim, rep.dim)``
-    discrete = jax.vmap(matrix_power)(rep.discrete_generators(), discrete_params)
+    H = jnp.asarray(rep.discrete_generators())
+    H = H.astype(jnp.promote_types(H.dtype, jnp.float32))
+    k = jnp.asarray(discrete_params)
+    H = jnp.where((k < 0)[:, None, None], jnp.linalg.inv(H), H)
+    discrete = jax.vmap(matrix_power)(H, jnp.abs(k))
     output = jax.scipy.linalg.expm(
         jnp.einsum("a,aij->ij", continuous_params, rep.continuous_generators())
     )
-- 
2.43.0


From edafca4411414d7760cbb0003645458f451235a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:09 +0000
Subject: [PATCH 41/42] fix: tensor_product and is_unitary tolerate rounding
 errors only

tensor_product(ReducedRep, ReducedRep) dropped the imaginary part of the change of basis when it
was below 1e-8 whatever its scale, and a change of basis within 1e-5 of the identity; is_unitary
accepted discrete generators whose norm was off by a relative 1e-5.
---
 lie_nn/_src/properties.py     | 4 +++-
 lie_nn/_src/tensor_product.py | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lie_nn/_src/properties.py b/lie_nn/_src/properties.py
index 9e22991..95f4f78 100644
--- a/lie_nn/_src/properties.py
+++ b/lie_nn/_src/properties.py
@@ -6,7 +6,9 @@ import lie_nn as lie
 def is_unitary(rep: lie.Rep) -> bool:
     X = rep.continuous_generators()
     H = rep.discrete_generators()
-    H_unit = np.allclose(H @ np.conj(np.transpose(H, (0, 2, 1))), np.eye(rep.dim), atol=1e-13)
+    H_unit = np.allclose(
+        H @ np.conj(np.transpose(H, (0, 2, 1))), np.eye(rep.dim), rtol=0, atol=1e-13
+    )
     # exp(X) @ exp(X^H) = 1
     # X + X^H = 0
     X_unit = np.allclose(X + np.conj(np.transpose(X, (0, 2, 1))), 0, atol=1e-13)
diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index 37894cd..e718e50 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -110,9 +110,10 @@ def tensor_product(rep1: ReducedRep, rep2: ReducedRep) -> ReducedRep:  # noqa: F
     Q = Q.reshape(rep1.dim * rep2.dim, rep1.dim * rep2.dim)
     Q = Q_tp @ Q
 
-    if np.allclose(Q.imag, 0):
+    # remove rounding errors only, relative to the scale of Q
+    if np.allclose(Q.imag, 0, rtol=0, atol=1e-13 * np.abs(Q).max(initial=0)):
         Q = Q.real
-    if np.allclose(Q, np.eye(Q.shape[0])):
+    if np.allclose(Q, np.eye(Q.shape[0]), rtol=0, atol=1e-13):
         Q = None
     return ReducedRep(A=rep1.A, irreps=tuple(mulir_list), Q=Q)
 
-- 
2.43.0


From 298fb81f295cc70d3b5e91c7c7ce4438a85ecf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:58 +0000
Subject: [PATCH 42/42] fix: make_explicitly_real refuses quaternionic discrete
 generators

---
 lie_nn/_src/real.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/real.py b/lie_nn/_src/real.py
index 6ec7b8e..8f3b7b5 100644
--- a/lie_nn/_src/real.py
+++ b/lie_nn/_src/real.py
@@ -22,6 +22,6 @@ def make_explicitly_real(rep: lie.Rep, *, round_fn=lambda x: x):
     i = np.argmax(gaps)
     phase = np.exp(1j * (np.pi - (a[i] + gaps[i] / 2)))
     rep = lie.change_basis(rep, la.sqrtm(S[0] * np.real_if_close(phase)))
-    if np.linalg.norm(rep.X.imag) > 1e-10:
+    if max(np.linalg.norm(rep.X.imag), np.linalg.norm(rep.H.imag)) > 1e-10:
         raise ValueError("The representation is not real")
     return rep
-- 
2.43.0

