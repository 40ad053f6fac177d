"""Observation of the inference of structure constants and of the validity checks (AlgTrace: C23)."""
import itertools

import numpy as np

import hl


def gi(M, unit=1):
    M = np.asarray(M).astype(complex) * unit
    return [[[int(round(z.real)), int(round(z.imag))] for z in row] for row in M]


def E(d, i, j):
    m = np.zeros((d, d))
    m[i, j] = 1.0
    return m


def families():
    """name -> generators over the Gaussian integers; closing ones and others"""
    f = {}
    for d in (1, 2, 3):
        f[f"gl{d}"] = [E(d, i, j) for i in range(d) for j in range(d)]
        f[f"diag{d}"] = [E(d, i, i) for i in range(d)]
    for d in (2, 3, 4):
        f[f"upper{d}"] = [E(d, i, j) for i in range(d) for j in range(i, d)]
        f[f"nil{d}"] = [E(d, i, j) for i in range(d) for j in range(i + 1, d)]
        f[f"so{d}"] = [E(d, i, j) - E(d, j, i) for i in range(d) for j in range(i + 1, d)]
    f["sl2"] = [E(2, 0, 1), E(2, 1, 0), E(2, 0, 0) - E(2, 1, 1)]
    f["sl2 spin1"] = [np.array([[0, 2, 0], [0, 0, 1], [0, 0, 0.0]]), np.array([[0, 0, 0], [1, 0, 0], [0, 2, 0.0]]), np.diag([2, 0, -2.0])]
    f["so21"] = [E(3, 0, 1) - E(3, 1, 0), E(3, 0, 2) + E(3, 2, 0), E(3, 1, 2) + E(3, 2, 1)]
    f["sp4"] = [E(4, 0, 2), E(4, 1, 3), E(4, 0, 3) + E(4, 1, 2), E(4, 2, 0), E(4, 3, 1), E(4, 3, 0) + E(4, 2, 1), E(4, 0, 0) - E(4, 2, 2),
                E(4, 1, 1) - E(4, 3, 3), E(4, 0, 1) - E(4, 3, 2), E(4, 1, 0) - E(4, 2, 3)]
    s = [np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]])]
    f["su2"] = [1j * x for x in s]
    f["u2"] = f["su2"] + [1j * np.eye(2)]
    f["sl2C real form"] = [1j * x for x in s] + [x.astype(complex) for x in s]  # independent over R only
    f["gl2 over C as real"] = [c * E(2, i, j) for c in (1, 1j) for i in range(2) for j in range(2)]
    f["u1"] = [np.diag([1j, -2j, 0])]
    f["so4 complex"] = [1j * np.kron(x, np.eye(2)) for x in s] + [1j * np.kron(np.eye(2), x) for x in s]
    f["su3"] = ([1j * (E(3, i, j) + E(3, j, i)) for i in range(3) for j in range(i + 1, 3)] + [(E(3, i, j) - E(3, j, i)) + 0j for i in range(3) for j in range(i + 1, 3)]
                + [1j * np.diag([1, -1, 0]), 1j * np.diag([0, 1, -1])])
    # not closing, or closing with complex constants only
    f["hermitian"] = [x.astype(complex) for x in s]                # [s1, s2] = 2i s3
    f["half sl2"] = [E(2, 0, 1), E(2, 1, 0)]
    f["so3 missing"] = [E(3, 0, 1) - E(3, 1, 0), E(3, 0, 2) - E(3, 2, 0)]
    f["gl3 missing"] = [E(3, i, j) for i in range(3) for j in range(3) if (i, j) != (2, 2)]
    f["mixed su2"] = [1j * s[0], 1j * s[1], s[2].astype(complex)]
    f["twisted sl2"] = [1j * E(2, 0, 1), E(2, 1, 0) + 0j, E(2, 0, 0) - E(2, 1, 1) + 0j]
    f["twisted upper"] = [E(2, 0, 1) + 0j, 1j * (E(2, 0, 0) - E(2, 1, 1))]
    # dependent
    f["zero"] = [np.zeros((2, 2))] * 3
    f["twice"] = [E(2, 0, 1), E(2, 0, 1), E(2, 0, 0)]
    f["sl2 and sum"] = f["sl2"] + [E(2, 0, 1) + E(2, 1, 0)]
    return {k: np.stack(v) for k, v in f.items()}


def jobs(prop, tier, seed, out):
    import lie_nn as lie
    from lie_nn import util

    rng = np.random.default_rng(seed)
    q = tier == "quick"
    js = []
    F = families()

    def is_closed(X, real=True):
        n = len(X)
        V = X.reshape(n, X.shape[1] * X.shape[2])
        W = np.concatenate([V.real, V.imag], axis=1) if real else V
        r = np.linalg.matrix_rank(W) if n else 0
        for i in range(n):
            for j in range(i):
                c = (X[i] @ X[j] - X[j] @ X[i]).reshape(1, -1)
                c = np.concatenate([c.real, c.imag], axis=1) if real else c
                if np.linalg.matrix_rank(np.concatenate([W, c]), tol=1e-8) > r:
                    return False
        return True

    def infer(name, X, unit=1, fn=None, zeroed=False, as_from=False, H=None):
        n, d = X.shape[:2]
        # tags: the harness' view, documenting coverage only
        dep = n and np.linalg.matrix_rank(np.concatenate([X.reshape(n, X.shape[1] * X.shape[2]).real, X.reshape(n, X.shape[1] * X.shape[2]).imag], axis=1)) < n
        tg = ["from" if as_from else "infer", "closed" if is_closed(X) else "complexclosed" if is_closed(X, False) else "open"]
        tg += (["dependent"] if dep else []) + (["micro"] if unit != 1 else []) + (["zeroed"] if zeroed else []) + (["empty"] if n == 0 else [])

        def build():
            Y = np.array(X)
            kw = {} if fn is None else {"round_fn": fn}
            ev = {"X": [gi(x, unit) for x in X], "d": d, "unit": unit, "zeroed": zeroed, "H": [] if H is None else [gi(h) for h in H], "untouched": True}
            if as_from:
                r = lie.GenericRep.from_generators(Y, **kw) if H is None else lie.GenericRep.from_generators(Y, H, **kw)
                ev["none"] = r is None
                ev["a"] = {"n": 0, "e": [], "ok": True}
                ev["rep"] = hl.rep(r) if r is not None else {}
            else:
                A = util.infer_algebra_from_generators(Y, **kw)
                ev["none"] = A is None
                ev["a"] = hl.alg(np.zeros((0, 0, 0)) if A is None else A)
                ev["untouched"] = bool(np.array_equal(X, Y))
            return ev
        op = "from" if as_from else "infer"
        js.append(lambda T: T.emit(op, f"{op}:{name}:" + hl.digest(X)[:6] + ("" if fn is None else ":fn"), tg, build))

    def mixed(X, kind):
        """another basis of the same span (or a conjugate representation)"""
        n, d = X.shape[:2]
        if kind == "basis" and n > 1:
            return np.einsum("ab,bij->aij", hl.unimodular(rng, n, 2), X)
        if kind == "conj" and d > 1:
            U = hl.unimodular(rng, d, 2)
            return U @ X @ np.rint(np.linalg.inv(U))
        return X

    rnd = util.round_to_sqrt_rational
    for name, X in F.items():
        for kind in ("plain", "basis", "conj") if q else ("plain", "basis", "basis", "conj", "conj"):
            Y = mixed(X, kind)
            if np.abs(Y).max() > 6:
                continue
            infer(name + ":" + kind, Y)
            if kind == "plain":
                infer(name + ":plain", Y + 0j)  # complex dtype
                infer(name + ":round", Y, fn=rnd)
                if name not in ("zero", "twice", "sl2 and sum"):  # unique constants: rounding keeps them
                    infer(name + ":rint", Y, fn=np.round)
                infer(name + ":zeroed", Y, fn=lambda x: 0 * x, zeroed=True)
                infer(name + ":from", Y, as_from=True)
                infer(name + ":from", Y, as_from=True, fn=rnd)
                infer(name + ":from", Y, as_from=True, H=np.stack([np.eye(X.shape[1]), -np.eye(X.shape[1])]))
        # off by one part in a million in one place
        for _ in range(3 if q else 12):
            Y = np.array(mixed(X, "basis"))
            k, i, j = (int(rng.integers(s)) for s in Y.shape)
            Y[k, i, j] += 1e-6
            if np.abs(Y).max() < 4 and X.shape[1] <= 3 and name not in ("zero", "twice", "sl2 and sum"):  # dependent ones become ill conditioned
                infer(name + ":micro", Y, unit=10**6)
    for d in (1, 2, 3):
        infer("none", np.zeros((0, d, d)))
        infer("none", np.zeros((0, d, d)), as_from=True)
        infer("none", np.zeros((0, d, d)), as_from=True, H=np.stack([-np.eye(d)]))
    # random small sets, mostly not closing
    for _ in range(60 if q else 400):
        d, n = int(rng.integers(1, 4)), int(rng.integers(1, 5))
        X = rng.integers(-1, 2, size=(n, d, d)).astype(float)
        if rng.integers(2):
            X = X + 1j * rng.integers(-1, 2, size=(n, d, d))
        V = np.concatenate([X.reshape(n, X.shape[1] * X.shape[2]).real, X.reshape(n, X.shape[1] * X.shape[2]).imag], axis=1)
        if np.linalg.matrix_rank(V) < n or np.linalg.svd(V, compute_uv=False).min() < 0.1:
            continue
        infer("random", X)

    def constants(X):
        n = len(X)
        V = np.concatenate([X.reshape(n, X.shape[1] * X.shape[2]).real, X.reshape(n, X.shape[1] * X.shape[2]).imag], axis=1)
        c = np.stack([(X[i] @ X[j] - X[j] @ X[i]).reshape(-1) for i in range(n) for j in range(n)])
        c = np.concatenate([c.real, c.imag], axis=1)
        A = np.linalg.lstsq(V.T, c.T, rcond=None)[0].T
        return np.rint(A).reshape(n, n, n)

    def check(name, A, X, unit=1, loose=None):
        def build():
            kw = {} if loose is None else {"atol": loose[0] / 2, "rtol": loose[1] / 2}
            val = bool(util.check_algebra_vs_generators(A, X, **kw))

            def passes(f):
                try:
                    f()
                    return True
                except AssertionError:
                    return False
            r = lie.GenericRep(A, X, np.zeros((0, *X.shape[1:])))
            return {"X": [gi(x, unit) for x in X], "A": [[[int(round(v * unit)) for v in row] for row in m] for m in A], "d": int(X.shape[1]), "unit": unit, "val": val,
                    "assertval": passes(lambda: util.check_algebra_vs_generators(A, X, assert_=True, **kw)), "method": passes(lambda: r.check_algebra_vs_generators()),
                    "methodtol": passes(lambda: r.check_algebra_vs_generators(**kw)),
                    "loose": loose is not None, "atol2": 0 if loose is None else loose[0], "rtol2": 0 if loose is None else loose[1]}
        L = np.einsum("ijk,kab->ijab", A, X)
        R = (X[:, None] @ X[None]) - (X[None] @ X[:, None])
        tg = ["check", "valid" if np.allclose(L, R, atol=1e-9, rtol=0) else "invalid"] + (["loose"] if loose else []) + (["micro"] if unit != 1 else []) + (["empty"] if len(X) == 0 else [])
        js.append(lambda T: T.emit("check", f"check:{name}:" + hl.digest(A, X)[:8], tg, build))

    for name, X in F.items():
        if not is_closed(X):
            continue
        n, d = X.shape[:2]
        A = constants(X)
        check(name, A, X)
        check(name, A, X + 0j)
        for _ in range(6 if q else 30):
            B = np.array(A)
            i, j, k = (int(rng.integers(n)) for _ in range(3))
            B[i, j, k] += 1
            check(name + ":A", B, X)
            B = np.array(A)
            B[i, j, k] += 1e-6
            if d <= 3 and n <= 8:
                check(name + ":Amicro", B, X, unit=10**6)
            Y = np.array(X)
            Y[int(rng.integers(n)), int(rng.integers(d)), int(rng.integers(d))] += 1
            check(name + ":X", A, Y)
            Y = np.array(X)
            Y[int(rng.integers(n)), int(rng.integers(d)), int(rng.integers(d))] += 1e-6 * (1j if np.iscomplexobj(X) and rng.integers(2) else 1)
            if d <= 3 and n <= 8:
                check(name + ":Xmicro", A, Y, unit=10**6)
            if not np.iscomplexobj(X):
                B = np.array(A)
                B[i, j, k] += int(rng.integers(0, 3))
                check(name + ":loose", B, X, loose=(int(rng.integers(0, 5)) + 0.0, int(rng.integers(0, 3)) + 0.0))
    for d in (1, 2):
        check("none", np.zeros((0, 0, 0)), np.zeros((0, d, d)))

    def triplet(name, rs, tag, **kw):
        def build():
            ev = {"reps": [hl.rep(r) for r in rs]}
            try:
                lie.check_representation_triplet(*rs, **kw)
                ev["val"] = True
            except (AssertionError, ValueError):
                ev["val"] = False
            return ev
        js.append(lambda T: T.emit("triplet", f"triplet:{name}:{tag}", ["triplet", "triplet-ok" if tag.startswith("ok") else "triplet-bad"], build))

    L = {"SU2": [["SU2", j] for j in range(3)], "SO3": [["SO3", l] for l in range(3)], "O3": [["O3", 0, -1], ["O3", 1, 1], ["O3", 1, -1]],
         "SL2C": [["SL2C", 0, 1], ["SL2C", 1, 0], ["SL2C", 0, 0]], "SU2_": [["SUN", [1, 0]], ["SUN", [2, 0]], ["SUN", [0, 0]]],
         "SU3": [["SUN", [1, 0, 0]], ["SUN", [1, 1, 0]], ["SUN", [0, 0, 0]]], "Z2": [["Z2", 1], ["Z2", -1]]}
    for g, ls in L.items():
        for t in itertools.product(ls, repeat=3) if not q else [tuple(ls[int(rng.integers(len(ls)))] for _ in range(3)) for _ in range(5)] + [(ls[0],) * 3, (ls[-1],) * 3]:
            rs = [hl.make(x) for x in t]
            key = g + ":" + "".join(hl.lab_str(x) for x in t)
            triplet(key, rs, "ok")
            if rs[0].lie_dim == 0:
                continue
            for pos in range(3):
                r = rs[pos]
                X, A = np.array(r.X), np.array(r.A)
                k, i, j = (int(rng.integers(s)) for s in X.shape)
                X[k, i, j] += 0.5
                triplet(key, rs[:pos] + [lie.GenericRep(A, X, r.H)] + rs[pos + 1:], f"X{pos}:{k},{i},{j}")
                A = np.array(r.A)
                a, b, c = (int(x) for x in rng.integers(len(A), size=3))
                A[a, b, c] += 0.5
                triplet(key, rs[:pos] + [lie.GenericRep(A, r.X, r.H)] + rs[pos + 1:], f"A{pos}:{a},{b},{c}")
                # another basis of the algebra, valid by itself, in one of the places
                Q = hl.unimodular(rng, len(A), 2)
                while np.array_equal(Q, np.eye(len(A))):
                    Q = hl.unimodular(rng, len(A), 2)
                triplet(key, rs[:pos] + [lie.change_algebra(r, Q)] + rs[pos + 1:], f"Q{pos}")
                # within (below 2^-20) the tolerances asked for
                A, X = np.array(r.A) * (1 + 1e-9), np.array(r.X) * (1 + 1e-9 * rng.uniform(-1, 1, size=r.X.shape))
                A[a, b, c] += 1e-9
                triplet(key, rs[:pos] + [lie.GenericRep(r.A, X, r.H)] + rs[pos + 1:], f"ok:within:X{pos}", rtol=0, atol=1e-5)
                triplet(key, rs[:pos] + [lie.GenericRep(A, r.X, r.H)] + rs[pos + 1:], f"ok:within:A{pos}", rtol=0, atol=1e-5)
                if pos == 0:
                    triplet(key, [lie.change_algebra(x, Q) for x in rs], "ok:Q")
    o = {g: hl.make(ls[1]) for g, ls in L.items()}
    for g1, g2 in itertools.permutations(o, 2):
        if o[g1].lie_dim != o[g2].lie_dim and not {o[g1].lie_dim, o[g2].lie_dim} & {1}:
            triplet(f"{g1},{g2}", [o[g1], o[g2], o[g1]], "group2")
            triplet(f"{g1},{g2}", [o[g1], o[g1], o[g2]], "group3")
    return [js[i] for i in rng.permutation(len(js))]
