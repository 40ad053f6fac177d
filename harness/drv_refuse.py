"""Calls with operands that may not belong together (RefuseTrace: C31)."""
import itertools

import numpy as np

import hl


def gsig(r):
    return {"A": hl.alg(np.asarray(r.algebra())), "h": int(np.asarray(r.discrete_generators()).shape[0])}


def refused(f):
    try:
        f()
        return False
    except hl.Hang:
        raise
    except Exception:
        return True


def operands(rng, q):
    """name -> representation, of many groups, parametrisations and kinds"""
    import lie_nn as lie

    ir = lie.irreps
    G = lie.GenericRep
    base = {"SU2": ir.SU2(1), "SO3": ir.SO3(1), "O3": ir.O3(1, -1), "SL2C": ir.SL2C(1, 0), "SO13": ir.SO13(1, 1), "SU2Real": ir.SU2Real(1), "SU2_": ir.SU2_((1, 0)),
            "SU3": ir.SU3((1, 0, 0)), "SU4": ir.SU4((1, 0, 0, 0)), "Z2": ir.Z2(-1), "SU2xZ2": lie.group_product(ir.SU2(1), ir.Z2(-1)), "O3xZ2": lie.group_product(ir.O3(1, 1), ir.Z2(1)),
            "SO3xSU2": lie.group_product(ir.SO3(1), ir.SU2(1)), "Z2xZ2": lie.group_product(ir.Z2(-1), ir.Z2(-1))}
    R = {}
    for n, r in base.items():
        R[n] = r
        R[n + ":mul"] = lie.MulIrrep(2, r)
        R[n + ":red"] = lie.ReducedRep.from_irreps([r, r.create_trivial()])
        R[n + ":gen"] = G.from_rep(r)
        if r.lie_dim:
            R[n + ":scaled"] = lie.change_algebra(r, 2.0 * np.eye(r.lie_dim))
            P = np.eye(r.lie_dim)
            if r.lie_dim > 1:
                P = P[rng.permutation(r.lie_dim)] * rng.choice([-1.0, 1.0], r.lie_dim)[:, None]
            R[n + ":perm"] = lie.change_algebra(r, P)
            A = np.array(r.A)
            i, j, k = (int(x) for x in rng.integers(r.lie_dim, size=3))
            A[i, j, k] += float(rng.choice([1e-3, 0.5, -1.0]))
            R[n + ":off"] = G(A, np.array(r.X), np.array(r.H))
        if len(r.H):
            R[n + ":noH"] = G(np.array(r.A), np.array(r.X), np.array(r.H)[:0])
        R[n + ":moreH"] = G(np.array(r.A), np.array(r.X), np.concatenate([np.array(r.H), np.eye(r.dim)[None]]))
    for n in (2, 3, 4):
        R[f"S{n}"] = lie.finite.Sn_natural(n)
    R["S3std"] = lie.finite.Sn_standard(3)
    for n in (0, 1, 2, 3):  # commutative algebras, with and without discrete generators
        for h in (0, 1, 2):
            R[f"U1^{n}:{h}"] = G(np.zeros((n, n, n)), 1j * np.arange(1, n + 1)[:, None, None] * np.ones((n, 1, 1)), -np.ones((h, 1, 1)))
            R[f"T{n}:{h}"] = G(np.zeros((n, n, n)), np.arange(1, n + 1)[:, None, None] * np.diag([1.0, -1.0])[None], np.broadcast_to(np.diag([1.0, -1.0]), (h, 2, 2)))
    return R


def jobs(prop, tier, seed, out):
    import lie_nn as lie

    rng = np.random.default_rng(seed)
    q = tier == "quick"
    js = []
    R = operands(rng, q)
    S = {n: (np.asarray(r.algebra()), len(np.asarray(r.discrete_generators()))) for n, r in R.items()}

    def tags(na, nb):
        (A, h), (B, k) = S[na], S[nb]
        if A.shape != B.shape:
            return ["other-dim"] + (["broadcast"] if min(len(A), len(B)) <= 1 and h == k else [])
        if h != k:
            return ["other-h"]
        return ["same"] if np.allclose(A, B) else ["other-const"]

    def do(op, a, b):
        if op == "tp":
            return lie.tensor_product(a, b)
        if op == "dsum":
            return lie.direct_sum(a, b)
        if op == "red":
            return lie.ReducedRep.from_irreps([a, b])
        return lie.infer_change_of_basis(a, b)

    def pair(op, na, nb):
        a, b = R[na], R[nb]
        gen = op in ("dsum", "red", "infer") or not (isinstance(a, (lie.TabulatedIrrep, lie.MulIrrep, lie.ReducedRep)) and isinstance(b, (lie.TabulatedIrrep, lie.MulIrrep, lie.ReducedRep)))
        # wrong structure constants are no algebra: only refusals are checked there
        gen = gen and not (op == "infer" and (":off" in na or ":off" in nb))
        js.append(lambda T: T.emit("pair", f"pair:{op}:{na}:{nb}", [op] + tags(na, nb),
                                   lambda: {"a": gsig(a), "b": gsig(b), "generic": bool(gen), "refused": refused(lambda: do(op, a, b))}))

    names = sorted(R)
    close = {n: [m for m in names if S[m][0].shape == S[n][0].shape or min(len(S[m][0]), len(S[n][0])) <= 1] for n in names}
    for op in ("tp", "dsum", "red", "infer"):
        for na in names:
            pool = close[na] if not q else list(rng.choice(close[na], min(len(close[na]), 9), replace=False))
            far = [m for m in names if m not in close[na]]
            pool = pool + list(rng.choice(far, min(len(far), 2 if q else 12), replace=False)) + ([na] if na not in pool else [])
            for nb in pool:
                if R[na].dim * R[nb].dim <= 80:
                    pair(op, na, str(nb))

    def many(ns):
        js.append(lambda T: T.emit("many", "many:" + ",".join(ns), ["many"], lambda: {"reps": [gsig(R[n]) for n in ns], "refused": refused(lambda: lie.ReducedRep.from_irreps([(2, R[n]) if i % 2 else R[n] for i, n in enumerate(ns)]))}))
    for _ in range(80 if q else 600):
        a = str(rng.choice(names))
        like = [m for m in close[a] if S[m][0].shape == S[a][0].shape and S[m][1] == S[a][1]]
        ns = [str(x) for x in rng.choice(like, 3)]
        if rng.integers(2):
            ns[int(rng.integers(3))] = str(rng.choice(close[a]))
        many(ns)

    # formulas
    ir = lie.irreps
    reps = [lambda: ir.SO3(1), lambda: lie.MulIrrep(2, ir.SO3(0)), lambda: lie.ReducedRep.from_irreps([ir.SO3(0), ir.SO3(1)]),
            lambda: lie.change_basis(lie.MulIrrep(1, ir.SO3(1)), np.diag([1.0, -1.0, 1.0])), lambda: ir.SO3(0), lambda: lie.MulIrrep(1, ir.SO3(2)),
            lambda: lie.ReducedRep.from_irreps([ir.SO3(1), ir.SO3(0)])]
    L = "ijklmnab"

    def formula(terms, given, tg):
        text = "=".join(("-" if s < 0 else "") + "".join(L[x] for x in p) for s, p in terms)

        def build():
            return {"terms": [{"s": s, "p": [int(x) for x in p]} for s, p in terms], "given": [[x, r] for x, r in given],
                    "refused": refused(lambda: lie.reduced_tensor_product_basis(text, **{L[x]: reps[r]() for x, r in given}))}
        js.append(lambda T: T.emit("formula", f"formula:{text}:" + ",".join(f"{L[x]}{r}" for x, r in given), ["formula", tg], build))

    for _ in range(150 if q else 1500):
        n = int(rng.integers(1, 4))
        f0 = [int(x) for x in rng.permutation(4)[:n]]
        terms = [(1, f0)] + [(int(rng.choice([1, -1])), [int(x) for x in rng.permutation(f0)]) for _ in range(int(rng.integers(0, 3)))]
        # orbits of the letters
        orb = {x: {x} for x in f0}
        for _i in range(4):
            for _s, p in terms:
                for x, y in zip(f0, p):
                    u = orb[x] | orb[y]
                    for z in u:
                        orb[z] = u
        choice = {}
        given = []
        for x in f0:
            o = min(orb[x])
            choice.setdefault(o, int(rng.integers(len(reps))) if n < 3 else int(rng.choice([0, 4, 3])))
            given.append((x, choice[o]))
        kind = int(rng.integers(7))
        tg = "legal"
        if kind == 0 and n > 1:  # a term that is no permutation of the first one
            k = len(terms)
            terms.append((1, f0[:-1] + [5] if rng.integers(2) else f0[:-1] if rng.integers(2) else f0 + [5]))
            tg = "not-permutation"
        elif kind == 1 and n > 1:
            terms.append((1, f0[:-1] + [f0[0]]))
            if rng.integers(2):
                terms[0] = (1, f0[:-1] + [f0[0]])
                given = [g for g in given if g[0] in terms[0][1]]
            tg = "repeated"
        elif kind == 2:
            given.append((6, 0))
            tg = "unknown"
        elif kind == 3:
            x = f0[int(rng.integers(n))]
            given = [g for g in given if g[0] not in orb[x]]
            tg = "missing"
        elif kind == 4:
            big = [x for x in f0 if len(orb[x]) > 1]
            if big:
                x = big[0]
                given = [(y, r if y != x else (r + 1 + int(rng.integers(len(reps) - 1))) % len(reps)) for y, r in given]
                tg = "conflict"
        elif kind == 5:  # one index per orbit is enough
            keep = {min(orb[x]) for x in f0}
            given = [g for g in given if g[0] in keep]
        if tg == "legal" and np.prod([reps[dict((min(orb[x]), r) for x, r in given)[min(orb[x])]]().dim for x in f0]) > 130:
            continue
        formula(terms, given, tg)
    formula([(-1, [0, 1]), (1, [1, 0])], [(0, 0), (1, 0)], "not-permutation")
    formula([(-1, [0])], [(0, 0)], "not-permutation")

    # labels
    from lie_nn._src.irreps.sun import SUN

    def number(t):
        return t // 2 if t % 2 == 0 else t / 2

    def label(c, v):
        C = SUN if c == "SUN" else getattr(ir, c)

        def build():
            x = [number(int(t)) for t in v]
            return {"cls": c, "v": [int(t) for t in v], "refused": refused(lambda: C(*x) if c in ("SU2", "SU2Real", "SL2C", "SO13") else C(S=tuple(x)))}
        js.append(lambda T: T.emit("label", f"label:{c}:{','.join(map(str, v))}", ["label", c], build))

    for t in range(-4, 9):
        label("SU2", [t])
        label("SU2Real", [t])
    for a, b in itertools.product(range(-4, 7), repeat=2):
        label("SL2C", [a, b])
        label("SO13", [a, b])
    for n in range(0, 6):
        for c in ("SUN", "SU2_", "SU3", "SU4"):
            for _ in range(25 if q else 200):
                v = [2 * int(x) for x in sorted(rng.integers(0, 4, size=n), reverse=True)]
                if n:
                    v[-1] = 0
                    m = int(rng.choice([0, 2, 3, 4, 5]))
                    i = int(rng.integers(n))
                    if m == 0:
                        v[i] += int(rng.choice([-2, 2, 4]))
                    elif m == 2:
                        v = [x + 2 for x in v]
                    elif m == 3:
                        v = [x - 2 for x in v]
                    elif m == 4:
                        v = [int(x) for x in rng.permutation(v)]
                label(c, v)

    # shape of the change of basis of a reduced sum
    def shape(ns, rows, cols):
        rs = [R[n] for n in ns]
        d = sum(r.dim for r in rs)
        js.append(lambda T: T.emit("shape", f"shape:{ns}:{rows}x{cols}", ["shape"], lambda: {"d": d, "rows": d + rows, "cols": d + cols, "refused": refused(lambda: lie.ReducedRep.from_irreps(rs, np.eye(d + rows, d + cols)))}))
    for n in ("SO3", "SU2:mul", "O3:red", "Z2", "SU3:gen", "S3"):
        for rows, cols in ((0, 0), (1, 0), (0, 1), (1, 1), (-1, -1), (-1, 0)):
            shape([n], rows, cols)
            shape([n, n], rows, cols)
    return [js[i] for i in rng.permutation(len(js))]
