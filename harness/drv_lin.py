"""Observation of the subspace tools (LinTrace: C22)."""
import numpy as np

import hl


def ints(a):
    a = np.asarray(a)
    return {"n": int(a.shape[0]), "m": int(a.shape[1]), "r": [[[int(round(z.real)), int(round(z.imag))] for z in row.astype(complex)] for row in a]}


def rand_mat(rng, n, m, cplx, rank=None, big=2):
    """a Gaussian integer matrix, of given rank if asked (by construction at most that)"""
    def g(*s):
        x = rng.integers(-big, big + 1, size=s).astype(float)
        return x + 1j * rng.integers(-big, big + 1, size=s) if cplx else x
    if rank is None or rank >= min(n, m):
        return g(n, m)
    big = 1
    A = rng.integers(-1, 2, size=(n, rank)) @ rng.integers(-1, 2, size=(rank, m)).astype(float)
    if cplx:
        B = rng.integers(-1, 2, size=(n, rank)) + 1j * rng.integers(-1, 2, size=(n, rank))
        C = rng.integers(-1, 2, size=(rank, m)) + 1j * rng.integers(-1, 2, size=(rank, m))
        A = B @ C
    return A


def tame(A, lo=0.15):
    """no singular value between rounding errors and lo, so that any tolerance in use separates them"""
    if A.size == 0:
        return True
    s = np.linalg.svd(A, compute_uv=False)
    return not np.any((s > 1e-9) & (s < lo))


def tame_rows(A, lo=0.02):
    """the Gram-Schmidt residues of the rows are zero or not small"""
    for i in range(1, len(A)):
        r = A[i] - np.linalg.lstsq(A[:i].T, A[i], rcond=None)[0] @ A[:i]
        x = np.linalg.norm(r)
        if 1e-9 < x < lo:
            return False
    return True


def layout(rng, A):
    """the same matrix in another memory layout"""
    k = rng.integers(4)
    if k == 0:
        return np.asfortranarray(A)
    if k == 1:
        B = np.zeros((A.shape[0], 2 * A.shape[1]), dtype=A.dtype)
        B[:, ::2] = A
        return B[:, ::2]
    return np.array(A)


def null(A):
    u, s, vh = np.linalg.svd(A)
    r = int((s > 1e-9).sum())
    return vh[r:].conj().T  # columns


def jobs(prop, tier, seed, out):
    from lie_nn import util

    rng = np.random.default_rng(seed)
    q = tier == "quick"
    js = []

    def tags(op, A, extra=()):
        r = np.linalg.matrix_rank(A) if A.size else 0
        return [op, "complex" if np.iscomplexobj(A) else "real", "full" if r == min(A.shape) else "deficient"] + (["zero"] if not A.any() else []) + list(extra)

    def single(A, what):
        A = layout(rng, A)
        key = f"{what}:{'c' if np.iscomplexobj(A) else 'r'}:{A.shape[0]}x{A.shape[1]}:" + hl.digest(A)[:6]
        if what == "gs":
            js.append(lambda T: T.emit("gs", key, tags("gs", A), lambda: {"a": ints(A), "q": hl.mat(util.gram_schmidt(A))}))
        elif what == "ext":
            js.append(lambda T: T.emit("ext", key, tags("ext", A), lambda: {
                "a": ints(A), "q": hl.mat(util.extend_basis(A)), "e": hl.mat(util.extend_basis(A, returns="E"))}))
        else:
            js.append(lambda T: T.emit("ns", key, tags("ns", A), lambda: {"a": ints(A), "x": hl.mat(util.nullspace(A))}))

    def draw(n, m, cplx, rank=None):
        for _ in range(1000):
            A = rand_mat(rng, n, m, cplx, rank)
            if tame(A) and tame_rows(A) and np.abs(A).max(initial=0) <= 6 and np.abs(A).sum(axis=1).max(initial=0) <= 40:
                return A
        raise RuntimeError("no tame matrix")

    def sparse(n, m, cplx):
        for _ in range(1000):
            r = int(rng.integers(2, min(n, m)))
            B = np.zeros((r, m), dtype=complex if cplx else float)
            for i in range(r):
                for j in rng.integers(0, m, size=3):
                    B[i, j] += [1, -1, 2, 1j if cplx else 1][int(rng.integers(4))]
            C = np.concatenate([np.eye(r), np.zeros((n - r, r))])
            for i in range(r, n):
                C[i, rng.integers(0, r, size=2)] = [1, -1]
            A = C[rng.permutation(n)] @ B
            if tame(A) and tame_rows(A) and np.abs(A).max() <= 6:
                return A
        raise RuntimeError("no tame matrix")

    sizes = [(n, m) for n in range(1, 6) for m in range(1, 7)]
    for cplx in (False, True):
        for n, m in sizes:
            for k in range(1 if q else 4):
                rk = int(rng.integers(0, min(n, m) + 1))
                for what in ("gs", "ext", "ns"):
                    single(draw(n, m, cplx), what)
                    single(draw(n, m, cplx, rk), what)
        for n, m in ((9, 4), (12, 6), (8, 8), (3, 9)):
            for k in range(1 if q else 4):
                for what in ("gs", "ext", "ns"):
                    single(draw(n, m, cplx, int(rng.integers(1, min(n, m) + 1))), what)
        # many columns, many rows: signed selections of vectors, with sparse combinations of them
        for n, m in ((5, 25), (8, 34), (40, 6)) + (() if q else ((12, 41), (20, 20), (70, 5))):
            for what in ("gs", "ext", "ns"):
                single(sparse(n, m, cplx), what)
        for m in (1, 3):
            for what in ("gs", "ext", "ns"):
                single(np.zeros((2, m), dtype=complex if cplx else float), what)

    # all real 2x2 / 2x3 matrices with entries in {-1,0,1}, and complex 2x2 with entries in {0,1,i,-i}
    for A in _all((2, 2), (-1, 0, 1)):
        for what in ("gs", "ext", "ns"):
            single(A.astype(float), what)
    if not q:
        for A in _all((2, 3), (-1, 0, 1)):
            for what in ("gs", "ext", "ns"):
                single(A.astype(float), what)
    # the same with rounding to square roots of rationals, which all the entries of the results are
    def rounded(A):
        f = util.round_to_sqrt_rational
        key = "rounded:" + hl.digest(A)[:6]
        js.append(lambda T: T.emit("gs", "gs:" + key, tags("gs", A, ["rounded"]), lambda: {"a": ints(A), "q": hl.mat(util.gram_schmidt(A, round_fn=f))}))
        js.append(lambda T: T.emit("ext", "ext:" + key, tags("ext", A, ["rounded"]), lambda: {
            "a": ints(A), "q": hl.mat(util.extend_basis(A, round_fn=f)), "e": hl.mat(util.extend_basis(A, round_fn=f, returns="E"))}))
        js.append(lambda T: T.emit("ns", "ns:" + key, tags("ns", A, ["rounded"]), lambda: {"a": ints(A), "x": hl.mat(util.nullspace(A, round_fn=f))}))

    for A in _all((2, 2), (-1, 0, 1)):
        rounded(A.astype(float))
    for A in _all((2, 3), (0, 1)):
        rounded(A.astype(float))
        rounded(A * (1 + 0j))
        rounded(A * np.array([1, 1j, -1]))
    for A in _all((2, 2), (0, 1, 1j, -1j)):
        for what in ("gs", "ext", "ns") if not q else ("gs", "ns"):
            single(A.astype(complex), what)

    def seq(As, dim, m, gen):
        cp = np.iscomplexobj(As[0]) if As else False

        def build():
            ev = {"as": [ints(A) for A in As], "dim": dim, "m": m, "err": "", "x": hl.mat(np.zeros((0, m)))}
            try:
                ev["x"] = hl.mat(util.sequential_nullspace((A for A in As) if gen else list(As), dim))
            except ValueError:
                ev["err"] = "ValueError"
            return ev
        key = f"sns:{'c' if cp else 'r'}:{len(As)}:{m}:{dim}:" + hl.digest(*As)[:6]
        full = m - (np.linalg.matrix_rank(np.concatenate(As)) if As else 0)
        js.append(lambda T: T.emit("sns", key, ["sns", "complex" if cp else "real"] + (["refused"] if full > dim or not As else []), build))

    for cplx in (False, True):
        cnt = 0
        while cnt < (60 if q else 300):
            m = int(rng.integers(2, 8))
            k = int(rng.integers(0 if cnt % 20 == 0 else 1, 5))
            As = [rand_mat(rng, int(rng.integers(1, 4)), m, cplx, 1 if rng.integers(2) else None) for _ in range(k)]
            N = np.eye(m)
            ok = True
            for A in As:
                B = A @ N
                ok = ok and tame(B) and np.abs(A).sum(axis=1).max(initial=0) <= 40
                if N.shape[1]:
                    N = N @ null(B)
            if not ok:
                continue
            seq(As, int(rng.integers(0, m)), m, bool(rng.integers(2)))
            cnt += 1

    def meet(b1, b2, shape, kind):
        cp = np.iscomplexobj(b1) or np.iscomplexobj(b2)

        def build():
            p1, p2 = util.basis_intersection(b1.reshape(b1.shape[0], *shape), b2.reshape(b2.shape[0], *shape))
            # certificate: coordinates of the intersection in the other basis
            c1 = np.linalg.lstsq(b2.T, (np.asarray(p1) @ b1).T, rcond=None)[0].T if b2.shape[0] else np.zeros((len(p1), 0))
            c2 = np.linalg.lstsq(b1.T, (np.asarray(p2) @ b2).T, rcond=None)[0].T if b1.shape[0] else np.zeros((len(p2), 0))
            return {"b1": ints(b1), "b2": ints(b2), "p1": hl.mat(p1), "p2": hl.mat(p2), "c1": hl.mat(c1), "c2": hl.mat(c2)}
        n1, n2 = len(b1), len(b2)
        k = n1 + n2 - np.linalg.matrix_rank(np.concatenate([b1, b2])) if n1 + n2 else 0
        tg = ["bi", "complex" if cp else "real", "meet" if k else "trivial-meet"] + (["empty"] if 0 in (n1, n2) else []) + (["tensor"] if len(shape) > 1 else [])
        js.append(lambda T: T.emit("bi", f"bi:{kind}:{'c' if cp else 'r'}:{n1}:{n2}:{shape}:" + hl.digest(b1, b2)[:6], tg, build))

    for cplx in (False, True):
        cnt = 0
        while cnt < (120 if q else 600):
            shape = [(3,), (4,), (5,), (2, 3), (2, 2), (2, 2, 2), (1,)][int(rng.integers(7))]
            m = int(np.prod(shape))
            n1, n2 = int(rng.integers(0, m + 1)), int(rng.integers(0, m + 1))
            common = int(rng.integers(0, min(n1, n2) + 1))
            C = rand_mat(rng, common, m, cplx, big=1)
            b1 = np.concatenate([C, rand_mat(rng, n1 - common, m, cplx, big=1)])
            b2 = np.concatenate([C, rand_mat(rng, n2 - common, m, cplx, big=1)])
            # mix the second basis so that the common vectors are not visible
            if n2:
                b2 = hl.unimodular(rng, n2, 2) @ b2
            if np.linalg.matrix_rank(b1) < n1 or np.linalg.matrix_rank(b2) < n2 or np.abs(np.concatenate([b1, b2]).ravel()).max(initial=0) > 5:
                continue
            if not (tame(b1, 0.3) and tame(b2, 0.3) and tame(np.concatenate([b1, b2]), 0.2)):
                continue
            # angles between the coordinate spaces must be clear, too
            K = null(np.concatenate([b1.T, -b2.T], axis=1)) if n1 + n2 else np.zeros((0, 0))
            if K.size and not (tame(K[:n1], 0.05) and tame(K[n1:], 0.05)):
                continue
            meet(b1, b2, shape, "rand")
            cnt += 1
    for m in (1, 3):
        E = np.eye(m)
        meet(E, E, (m,), "all")
        meet(E, np.zeros((0, m)), (m,), "none")
        meet(np.zeros((0, m)), E, (m,), "none")
        meet(np.zeros((0, m)), np.zeros((0, m)), (m,), "none")
    meet(np.array([[1, 0, 0], [0, 0, 1.0]]), np.array([[1, 1, 0], [0, 1, 0.0]]), (3,), "doc")

    def icb(x1, x2, two):
        d1, d2 = x1.shape[1], x2.shape[1]

        def build():
            a, b = (x1[0], x2[0]) if two else (x1, x2)
            S = np.asarray(util.infer_change_of_basis(a, b))
            return {"x1": [ints(x) for x in x1], "x2": [ints(x) for x in x2], "d1": d1, "d2": d2, "shape": [int(s) for s in S.shape],
                    "s": hl.mat(S.reshape(S.shape[0], d1 * d2))}
        cp = np.iscomplexobj(x1)
        js.append(lambda T: T.emit("icb", f"icb:{'c' if cp else 'r'}:{len(x1)}:{d1}:{d2}:" + hl.digest(x1, x2)[:6], ["icb", "complex" if cp else "real"], build))

    for cplx in (False, True):
        cnt = 0
        while cnt < (50 if q else 250):
            d1, d2, n = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 3))
            x1 = np.stack([rand_mat(rng, d1, d1, cplx, int(rng.integers(0, d1 + 1)), big=1) for _ in range(n)])
            if d1 == d2 and cnt % 2:
                U = hl.unimodular(rng, d1, 2)
                x2 = np.rint((np.linalg.inv(U) @ x1 @ U).real) + (1j * np.rint((np.linalg.inv(U) @ x1 @ U).imag) if cplx else 0)
            elif d2 > d1 and cnt % 2:
                x2 = np.zeros((n, d2, d2), dtype=x1.dtype)
                x2[:, :d1, :d1] = x1
            else:
                x2 = np.stack([rand_mat(rng, d2, d2, cplx, int(rng.integers(0, d2 + 1)), big=1) for _ in range(n)])
            M = np.concatenate([np.kron(a, np.eye(d2)) - np.kron(np.eye(d1), b.T) for a, b in zip(x1, x2)])
            if not tame(M) or np.abs(M).max() > 10 or np.abs(M).sum(axis=1).max() > 40:
                continue
            icb(x1, x2, n == 1 and cnt % 3 == 0)
            cnt += 1
    return [js[i] for i in rng.permutation(len(js))]


def _all(shape, vals):
    import itertools

    n = int(np.prod(shape))
    for c in itertools.product(vals, repeat=n):
        yield np.array(c).reshape(shape)
