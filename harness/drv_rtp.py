"""Observation of symmetry-reduced tensor product bases (RtpTrace: C17, C18)."""
import itertools

import numpy as np

import hl
from drv_cg import dim, prod_family, PROD
from drv_hom import tag

POOL = {
    "SU2": [["SU2", j] for j in range(3)], "SO3": [["SO3", j] for j in range(3)], "O3": [["O3", j, p] for j in range(2) for p in (1, -1)],
    "SUN3": [["SUN", S] for S in ([0, 0, 0], [1, 0, 0], [1, 1, 0])], "SUN2": [["SUN", [j, 0]] for j in range(3)], "SUN4": [["SUN", S] for S in ([0] * 4, [1, 0, 0, 0])],
    "SL2C": [["SL2C", a, b] for a, b in ((0, 0), (1, 0), (0, 1), (1, 1))], "SO13": [["SO13", a, b] for a, b in ((0, 0), (1, 1), (2, 0), (0, 2))],
    "Z2": [["Z2", 1], ["Z2", -1]], "SU2Real": [["SU2Real", j] for j in (0, 2, 4)],
}
for _i, _p in enumerate(PROD[:4]):
    POOL[f"PROD{_i}"] = [l for l in prod_family(_p) if dim(l) <= 4]

LETTERS = "ijklmn"


def formula(n, gens):
    """T[x] = s T[x o p]  rendered with index letters"""
    f0 = LETTERS[:n]
    return "=".join([f0] + [("-" if s < 0 else "") + "".join(f0[i] for i in p) for s, p in gens])


FORMULAS = {
    1: [[], [(-1, (0,))], [(1, (0,))]],
    2: [[], [(1, (1, 0))], [(-1, (1, 0))], [(1, (1, 0)), (-1, (1, 0))], [(-1, (0, 1))], [(1, (0, 1))]],
    3: [[], [(1, (1, 0, 2))], [(-1, (1, 0, 2))], [(1, (0, 2, 1))], [(-1, (2, 1, 0))], [(1, (1, 2, 0))], [(-1, (1, 2, 0))], [(1, (1, 0, 2)), (1, (0, 2, 1))],
        [(-1, (1, 0, 2)), (-1, (0, 2, 1))], [(1, (1, 0, 2)), (-1, (0, 2, 1))], [(1, (2, 0, 1)), (-1, (1, 0, 2))]],
    4: [[(1, (1, 0, 2, 3))], [(-1, (1, 0, 2, 3))], [(1, (1, 0, 2, 3)), (1, (0, 1, 3, 2))], [(-1, (1, 0, 2, 3)), (1, (2, 3, 0, 1))], [(-1, (1, 0, 2, 3)), (-1, (0, 1, 3, 2)), (1, (2, 3, 0, 1))],
        [(1, (1, 2, 3, 0))], [(-1, (1, 2, 3, 0))], [(1, (2, 3, 0, 1))], [(-1, (2, 3, 0, 1))], [(1, (1, 0, 3, 2))], [(-1, (1, 0, 3, 2))], [(1, (0, 2, 1, 3))], [(-1, (0, 2, 3, 1))],
        [(-1, (0, 2, 1, 3)), (1, (3, 1, 2, 0))], [(-1, (1, 0, 2, 3)), (-1, (1, 2, 3, 0))], [(1, (1, 0, 2, 3)), (1, (1, 2, 3, 0))], [(-1, (3, 2, 1, 0)), (1, (1, 0, 3, 2))]],
}


def orbits(n, gens):
    lab = list(range(n))
    for _ in range(n):
        for _, p in gens:
            for i, j in enumerate(p):
                m = min(lab[i], lab[j])
                lab[i] = lab[j] = m
    return lab


def basis_matrix(rng, d, how):
    if how == "perm":
        return np.eye(d)[rng.permutation(d)] * rng.choice([1.0, -1.0], d)[:, None]
    if how == "int":
        return hl.unimodular(rng, d, 1)
    if how == "rot":  # rational rotation of two coordinates
        Q = np.eye(d)
        if d > 1:
            i, j = rng.choice(d, 2, replace=False)
            c, s = (3 / 5, 4 / 5) if rng.integers(2) else (np.sqrt(0.5), np.sqrt(0.5))
            Q[i, i], Q[i, j], Q[j, i], Q[j, j] = c, s, -s, c
        return Q
    return hl.orthogonal(rng, d)


def make_rep(rng, content, kind, how, seed):
    import lie_nn as lie
    from lie_nn._src.reduced_rep import MulIrrep

    reps = [(m, hl.make(l)) for l, m in content]
    if kind == "irrep":
        return reps[0][1]
    if kind == "mul":
        return MulIrrep(mul=reps[0][0], rep=reps[0][1])
    r = lie.ReducedRep.from_irreps(reps)
    if how:
        r = lie.change_basis(r, basis_matrix(np.random.default_rng(seed), r.dim, how))
    return r


def pick_rep(rng, g, dmax, form, n, sym):
    P = POOL[g]
    for _ in range(500):
        kind = ["irrep", "mul", "red", "red"][rng.integers(4)]
        parts = 1 if kind != "red" else int(rng.integers(1, 3))
        c = [[P[i], 1 if kind == "irrep" else int(rng.integers(1, 3))] for i in rng.permutation(len(P))[:parts]]
        if kind == "red" and rng.integers(6) == 0:
            c.append([P[rng.integers(len(P))], 0])
        if kind == "red" and rng.integers(6) == 0:
            c.append([c[0][0], 1])
        d = sum(m * dim(l) for l, m in c)
        if 0 < d <= dmax:
            break
    else:
        kind, c = "irrep", [[min(P, key=dim), 1]]
    how = ""
    if kind == "red" and rng.integers(2):
        how = ["perm", "int", "rot"][rng.integers(3)]
        if form == "list" and rng.integers(2):
            how = "orth"  # no rounding takes place without a symmetry
    return c, kind, how, int(rng.integers(1 << 30))


def emit(T, form, g, n, gens, specs, only, key, known=False):
    import lie_nn as lie

    def build():
        reps = {}
        for i in range(n):
            c, kind, how, sd = specs[i]
            reps[i] = make_rep(None, c, kind, how, sd)
        if form == "list":
            out = lie.reduced_tensor_product_basis([reps[i] for i in range(n)])
        elif form == "sym":
            out = lie.reduced_symmetric_tensor_product_basis(reps[0], n)
        else:
            out = lie.reduced_tensor_product_basis(formula(n, gens), **{LETTERS[i]: reps[i] for i in range(n) if i in only})
        A = np.asarray(out.array)
        o = out.rep.dim
        W = np.moveaxis(A, -1, 0).reshape(A.shape[-1], int(np.prod(A.shape[:-1])))
        lst, listing, cur, ok = list(out.list), [], 0, True
        ok = len(lst) == len(out.rep.irreps)
        for m, x in zip(out.rep.irreps, lst):
            listing.append([hl.label_of(m.rep), int(m.mul)])
            w = m.mul * m.rep.dim
            ok = ok and x.shape == A.shape[:-1] + (m.mul, m.rep.dim) and np.array_equal(x.reshape(A.shape[:-1] + (w,)), A[..., cur: cur + w])
            cur += w
        ok = ok and cur == A.shape[-1]
        # the basis up to a power of two, and a right inverse up to a power of two
        top = np.abs(W).max() if W.size else 1.0
        W = W * 2.0 ** -max(0, int(np.ceil(np.log2(max(top, 1e-9) / 2))))
        R = np.linalg.pinv(W) if W.size else np.zeros(W.shape[::-1])
        top = max(np.abs(R).max(), np.abs(R).sum(axis=0).max() / 8) if R.size else 1.0
        R = R * 2.0 ** -max(0, int(np.ceil(np.log2(max(top, 1e-9) / 4))))
        return {"gens": [[s, [i + 1 for i in p]] for s, p in gens], "contents": [specs[i][0] for i in range(n)], "reps": [hl.rep(reps[i]) for i in range(n)],
                "rep": hl.rep(out.rep), "W": hl.mat(W), "shape": [int(x) for x in A.shape], "listing": listing, "listok": bool(ok), "R": hl.mat(R)}

    tags = [tag(g), form, f"n{n}"] + (["Q"] if any(s[2] for s in specs) else []) + (["contradiction"] if any(p == tuple(range(n)) and s < 0 for s, p in gens) else [])
    T.emit("rtp", key, tags, build)


def show(s):
    return f"{s[1]}{'/' + s[2] if s[2] else ''}[" + "+".join(f"{m}x{hl.lab_str(l)}" for l, m in s[0]) + "]"


def jobs(prop, tier, seed, out):
    rng = np.random.default_rng(seed)
    q = tier == "quick"
    js = []
    groups = ["SU2", "SO3", "O3", "SUN3", "SUN2", "SUN4", "SL2C", "SO13", "Z2", "SU2Real", "PROD0", "PROD1", "PROD2", "PROD3"]
    cap = 64 if q else 130

    def add(form, g, n, gens):
        lab = orbits(n, gens) if form == "formula" else ([0] * n if form == "sym" else list(range(n)))
        base = {}
        for o in sorted(set(lab)):
            base[o] = None
        for _ in range(60):
            for o in base:
                k = lab.count(o)
                base[o] = pick_rep(rng, g, {1: 12, 2: 8, 3: 5, 4: 3}[n] if n < 5 else 2, form, n, k > 1)
            D = [sum(m * dim(l) for l, m in base[lab[i]][0]) for i in range(n)]
            if np.prod(D) <= cap:
                break
        else:
            return
        specs = [base[lab[i]] for i in range(n)]
        only = set(range(n))
        if form == "formula" and rng.integers(2):
            only = {min(i for i in range(n) if lab[i] == o) if rng.integers(2) else max(i for i in range(n) if lab[i] == o) for o in set(lab)}
        gg = gens if form != "sym" else [(1, p) for p in itertools.permutations(range(n))][1:]
        key = f"rtp:{form}:{formula(n, gens) if form == 'formula' else n}:" + ",".join(show(s) for s in specs) + f"|{''.join(map(str, sorted(only)))}"
        js.append(lambda T: emit(T, form, g, n, gg, specs, only, key))

    for r in range(2 if q else 8):
        for gi, g in enumerate(groups):
            for n in (1, 2, 3, 4):
                F = FORMULAS[n]
                take = len(F) if n < 3 else (6 if q else len(F))
                for i in rng.permutation(len(F))[:take]:
                    add("formula", g, n, F[i])
                add("list", g, n, [])
                add("sym", g, n, [])
            # random signed generators
            for t in range(2 if q else 8):
                n = int(rng.integers(2, 5))
                gens = [(int(rng.choice([1, -1])), tuple(int(x) for x in rng.permutation(n))) for _ in range(int(rng.integers(1, 3)))]
                add("formula", g, n, gens)
    if prop == "C18":
        # known finding: the real quaternionic irreps of SU2Real
        specs = [([[["SU2Real", 1], 1]], "irrep", "", 0), ([[["SU2Real", 2], 1]], "irrep", "", 0)]
        js.append(lambda T: emit(T, "list", "SU2Real", 2, [], specs, {0, 1}, "rtp:list:2:SU2Real(1/2),SU2Real(1)"))
    return [js[i] for i in rng.permutation(len(js))]
