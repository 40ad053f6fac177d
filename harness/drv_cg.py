"""Observation of irrep products and Clebsch-Gordan coefficients (CGTrace: C03, C04, C05, C14)."""
import numpy as np

import hl
from drv_irrep import sun_labels, trivial


def dim(l):
    t = l[0]
    if t in ("SU2",):
        return l[1] + 1
    if t == "SU2Real":
        return (l[1] + 1) * (1 if l[1] % 2 == 0 else 2)
    if t in ("SO3", "O3"):
        return 2 * l[1] + 1
    if t in ("SL2C", "SO13"):
        return (l[1] + 1) * (l[2] + 1)
    if t == "Z2":
        return 1
    if t == "PROD":
        return dim(l[1]) * dim(l[2])
    S, d = l[1], 1.0
    for i in range(len(S)):
        for j in range(i + 1, len(S)):
            d *= (S[i] - S[j] + j - i) / (j - i)
    return round(d)


def family(g, big):
    if g == "SU2":
        return [["SU2", j] for j in range(big)]
    if g == "SU2Real":
        return [["SU2Real", j] for j in range(big)]
    if g == "SO3":
        return [["SO3", j] for j in range(big)]
    if g == "O3":
        return [["O3", j, p] for j in range(big) for p in (1, -1)]
    if g == "SL2C":
        return [["SL2C", a, b] for a in range(big) for b in range(big)]
    if g == "SO13":
        return [["SO13", a, b] for a in range(big) for b in range(big) if (a + b) % 2 == 0]
    if g == "Z2":
        return [["Z2", 1], ["Z2", -1]]
    n = int(g[3:])
    return [["SUN", list(S)] for S in sun_labels(n, big, 40)]


PROD = [("SU2", "O3"), ("SUN3", "SU2"), ("O3", "Z2"), ("SO3", "SO3"), ("SL2C", "Z2"), ("Z2", "SUN2"), ("SU2", ("Z2", "SO3"))]


def prod_family(pr):
    a, b = pr
    A = family(a, 3)
    B = family(b, 3) if isinstance(b, str) else prod_family(b)
    return [["PROD", x, y] for x in A for y in B]


def pairs(tier, rng, prop):
    """list of (a, b)"""
    q = tier == "quick"
    only3 = prop == "C03"
    out = []
    plan = {  # group: (label range, max d1*d2, how many)
        "SU2": (9, 60, 40), "SO3": (5, 50, 20), "O3": (4, 50, 30), "SU2Real": (6, 40, 14), "SL2C": (5, 40, 50), "SO13": (6, 48, 30),
        "Z2": (2, 1, 4), "SUN1": (0, 1, 1), "SUN2": (6, 50, 14), "SUN3": (4, 64, 34), "SUN4": (3, 40, 16), "SUN5": (2, 25, 6),
    }
    if not q:
        plan = {"SU2": (16, 200, 120), "SO3": (8, 120, 60), "O3": (6, 100, 90), "SU2Real": (8, 60, 40), "SL2C": (7, 90, 160), "SO13": (8, 100, 100),
                "Z2": (2, 1, 4), "SUN1": (0, 1, 1), "SUN2": (12, 140, 60), "SUN3": (5, 100, 110), "SUN4": (4, 80, 50), "SUN5": (3, 50, 14), "SUN6": (1, 36, 4)}
    if only3:
        plan = {k: (r + (4 if k[:3] != "SUN" else 1), m * 6, n * 5) for k, (r, m, n) in plan.items()}
    for g, (big, m, cnt) in plan.items():
        F = family(g, big)
        P = [(a, b) for a in F for b in F if dim(a) * dim(b) <= m]
        P.sort(key=lambda p: dim(p[0]) * dim(p[1]))
        # all the small ones, and a random choice of the others
        k = min(len(P), cnt // 2)
        rest = [P[k:][i] for i in rng.permutation(len(P) - k)[: cnt - k]] if len(P) > k else []
        out += P[:k] + rest
    out += [p for p in MUST if p not in out]
    for pr in PROD:
        F = prod_family(pr)
        P = [(a, b) for a in F for b in F if dim(a) * dim(b) <= (60 if q else 120)]
        out += [P[i] for i in rng.permutation(len(P))[: 4 if q else 14]]
    return out


MUST = [(["SUN", [2, 1, 0]], ["SUN", [2, 1, 0]])]  # outer multiplicity: the adjoint of SU(3) twice in its square


def big_pairs(tier, rng):
    """products too large to be closed: a few of their couplings"""
    q = tier == "quick"
    A3, A4 = ["SUN", [2, 1, 0]], ["SUN", [2, 1, 1, 0]]
    out = [(A4, A4, [A4, ["SUN", [2, 2, 0, 0]]]), (A3, ["SUN", [3, 1, 0]], [["SUN", [3, 1, 0]], ["SUN", [2, 2, 0]]]), (["SUN", [3, 0, 0]], A3, [A3])]
    if not q:
        out += [(["SUN", [4, 2, 0]], A3, [["SUN", [4, 2, 0]]]), (A3, ["SUN", [4, 2, 0]], [["SUN", [3, 0, 0]], ["SUN", [4, 2, 0]]]), (A4, ["SUN", [2, 1, 0, 0]], [["SUN", [2, 1, 0, 0]], ["SUN", [3, 1, 1, 0]]])]
    plan = {"SU2": (range(9, 25), 500, 6, 3), "SO3": (range(4, 11), 260, 4, 2), "O3": (range(4, 9), 230, 4, 2), "SUN2": (range(7, 16), 200, 3, 2),
            "SL2C": (range(3, 7), 300, 4, 2), "SU2Real": (range(6, 15, 2), 230, 3, 2)}
    for g, (r, m, cnt, k) in plan.items():
        for _ in range(cnt if q else 6 * cnt):
            while True:
                v = [int(rng.choice(r)) for _ in range(4)]
                if g == "O3":
                    a, b = ["O3", v[0], int(rng.choice([1, -1]))], ["O3", v[1], int(rng.choice([1, -1]))]
                elif g == "SL2C":
                    a, b = ["SL2C", v[0], int(rng.integers(0, 4))], ["SL2C", int(rng.integers(0, 4)), v[1]]
                elif g == "SUN2":
                    a, b = ["SUN", [v[0], 0]], ["SUN", [v[1], 0]]
                else:
                    a, b = [g, v[0]], [g, v[1]]
                if dim(a) * dim(b) <= m:
                    break
            out.append((a, b, k))
    return out


def wmats(C):
    """C[z,i,j,k] -> list of W_z[k,(i,j)]"""
    C = np.asarray(C)
    if C.ndim != 4:
        return [], [int(x) for x in C.shape]
    W = np.moveaxis(C, 3, 1).reshape(C.shape[0], C.shape[3], C.shape[1] * C.shape[2])
    return [hl.mat(w) for w in W], [int(x) for x in C.shape]


def igram(C):
    C = np.asarray(C)
    v = C.reshape(C.shape[0], int(np.prod(C.shape[1:])))
    G = v @ v.conj().T
    try:
        return hl.mat(np.linalg.inv(G)) if len(G) else hl.mat(np.zeros((0, 0)))
    except np.linalg.LinAlgError:
        return hl.mat(np.zeros_like(G))


def cg_fields(C):
    W, shape = wmats(C)
    return {"W": W, "shape": shape, "iG": igram(C) if len(shape) == 4 else hl.mat(np.zeros((0, 0)))}


def others(a, b, listed, rng, k=2):
    """labels of the same group that are probably not in the product"""
    g = a[0]
    if g == "PROD":
        F = [["PROD", x, y] for x in others(a[1], b[1], [], rng, 3) for y in others(a[2], b[2], [], rng, 3)]
    elif g == "SUN":
        F = family(f"SUN{len(a[1])}", 2) if len(a[1]) > 1 else [["SUN", [0]]]
    else:
        F = family(g, 4)
    F = [x for x in F if x not in listed and dim(x) <= 12]
    return [F[i] for i in rng.permutation(len(F))[:k]]


def pair_job(a, b, prop, rng, some=None):
    """some: None for all the couplings, a number for so many, or the list of the labels"""
    tag = [a[0]] + ([f"SUN{len(a[1])}"] if a[0] == "SUN" else [])
    key = hl.lab_str(a) + "*" + hl.lab_str(b)
    extra = others(a, b, [], rng, 4)
    sub = bool(rng.integers(2)) if a[0] == "SUN" else True

    def proj(x):
        if prop != "C03":
            return hl.rep(x)
        d = int(x.dim)
        return {"d": d, "A": hl.alg(np.zeros((0, 0, 0))), "n": 0, "h": 0, "xs": [0, d, d], "hs": [0, d, d], "X": [], "H": []}

    def f(T):
        import lie_nn as lie

        box = {}

        def build():
            x, y = hl.make(a, sub), hl.make(b, sub)
            out = list(x * y)
            box.update(x=x, y=y, out=out)
            return {"a": a, "b": b, "list": [hl.label_of(c) for c in out], "same": all(type(c) is type(x) for c in out),
                    "ra": proj(x), "rb": proj(y)}

        T.emit("pair", "pair:" + key, tag, build)
        if prop == "C03" or not box:
            if box:
                T.emit("sum", "sum:" + key, tag, lambda: {})
            return
        listed = [hl.label_of(c) for c in box["out"]]
        cs = [(c, l, True) for c, l in zip(box["out"], listed)] + [(hl.make(l, sub), l, False) for l in extra if l not in listed][:2]
        if some is not None:
            pick = [i for i in rng.permutation(len(listed))[:some]] if isinstance(some, int) else [i for i, l in enumerate(listed) if l in some]
            cs = [cs[i] for i in pick] + cs[len(listed) :][:1]
        for c, l, s in cs:
            def cg(c=c, l=l, s=s):
                C = lie.clebsch_gordan(box["x"], box["y"], c)
                return {"c": l, "sum": s, "rep": hl.rep(c), **cg_fields(C)}

            T.emit("cg", "cg:" + key + "->" + hl.lab_str(l), tag, cg)
        if some is None:
            T.emit("sum", "sum:" + key, tag, lambda: {})
        else:
            T.emit("end", "end:" + key, ["end"], lambda: {})

    return f


# ------------------------------------------------- arbitrary representations
def content_rep(content, kind, rng):
    """representation of known content; kind: irrep, mul, red, redq, gen, genq"""
    import lie_nn as lie
    from lie_nn._src.reduced_rep import MulIrrep

    reps = [(m, hl.make(l)) for l, m in content]
    if kind == "irrep":
        return reps[0][1]
    if kind == "mul":
        return MulIrrep(mul=reps[0][0], rep=reps[0][1])
    r = lie.ReducedRep.from_irreps(reps)
    if kind == "red":
        return r
    d = r.dim
    r = lie.change_basis(r, hl.orthogonal(rng, d) if rng.integers(2) else hl.unitary(rng, d))
    if kind == "redq":
        return r
    return lie.GenericRep.from_rep(r)


W3 = np.exp(2j * np.pi / 3)
FIN = {  # finite groups: the images of the generators in every irrep (tables of characters in Finite.tla)
    "C3": [[[[1]]], [[[W3]]], [[[W3**2]]]],
    "C4": [[[[1]]], [[[1j]]], [[[-1]]], [[[-1j]]]],
    "Q8": [[[[1]], [[1]]], [[[1]], [[-1]]], [[[-1]], [[1]]], [[[-1]], [[-1]]], [[[1j, 0], [0, -1j]], [[0, 1], [-1, 0]]]],
    "D4": [[[[1]], [[1]]], [[[1]], [[-1]]], [[[-1]], [[1]]], [[[-1]], [[-1]]], [[[0, -1], [1, 0]], [[1, 0], [0, -1]]]],
    "A4": [[[[1]], [[1]]], [[[W3]], [[1]]], [[[W3**2]], [[1]]], [[[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[1, 0, 0], [0, -1, 0], [0, 0, -1]]]],
}
EXT = {  # groups without a table: O(2), U(1), SU(2) x S_3, finite groups, and products of a Lie group with a finite group
    "U1": [["U1", q] for q in (-2, -1, 0, 1, 2)],
    "O2": [["O2", 0, 1], ["O2", 0, -1], ["O2", 1, 1], ["O2", 2, 1], ["O2", 3, 1]],
    # abelian groups: charges in units of 1/32 (also ones that differ by little) and signs
    "AB0": [["AB", [], [x, y, z]] for x in (1, -1) for y in (1, -1) for z in (1, -1)],
    "AB1": [["AB", [32, 64, q], []] for q in (0, 32, 33, -32)] + [["AB", [-32, -64, 0], []], ["AB", [0, 0, 0], []], ["AB", [0, 0, 1], []]],
    "AB2": [["AB", [q], [x, y]] for q in (0, 48, 49) for x in (1, -1) for y in (1, -1)],
    "AB3": [["AB", [q, r, q], [x]] for q in (0, 32) for r in (16, -16) for x in (1, -1)] + [["AB", [q, 0, 0], [1]] for q in (0, 1, -1)],
    "AB4": [["AB", [q, r], []] for q in (0, 32, 30) for r in (0, 32, 34)],
    "MIX": [["MIX", j, k] for j in range(4) for k in ("triv", "sign", "std") if (j + 1) * (2 if k == "std" else 1) <= 6],
    "LF0": [["LF", ["SU2", j], ["Q8", i]] for j in range(3) for i in (1, 2, 4, 5)],
    "LF1": [["LF", ["SO3", j], ["C3", i]] for j in range(3) for i in (1, 2, 3)],
    "LF2": [["LF", ["SUN", S], ["C4", i]] for S in ([0, 0, 0], [1, 0, 0], [1, 1, 0]) for i in (1, 2, 3, 4)],
    "LF3": [["LF", ["O3", j, p], ["A4", i]] for j in range(2) for p in (1, -1) for i in (1, 2, 3, 4) if j == 0 or i < 4],
    "LF4": [["LF", ["SU2", j], ["D4", i]] for j in range(3) for i in (1, 3, 4, 5)],
    **{h: [[h, i + 1] for i in range(len(t))] for h, t in FIN.items()},
}


def ext_tag(g):
    return g[:2] if g[:2] in ("LF", "AB") else g


def ext_dim(l):
    if l[0] == "SN":
        return {"nat": l[2], "std": l[2] - 1, "triv": 1, "sign": 1}[l[1]]
    if l[0] == "MIX":
        return (l[1] + 1) * (2 if l[2] == "std" else 1)
    if l[0] == "LF":
        return dim(l[1]) * ext_dim(l[2])
    if l[0] in FIN:
        return len(FIN[l[0]][l[1] - 1][0])
    return 1 if l[0] in ("U1", "AB") or l[1] == 0 else 2


def ext_irrep(l):
    import lie_nn as lie

    z = np.zeros
    if l[0] == "SN":
        kind, n = l[1], l[2]
        if kind == "sign":
            return lie.GenericRep(A=z((0, 0, 0)), X=z((0, 1, 1)), H=np.array([[[-1.0]], [[(-1.0) ** (n - 1)]]])[: 1 if n == 2 else 2])
        return lie.GenericRep.from_rep({"nat": lie.finite.Sn_natural, "std": lie.finite.Sn_standard, "triv": lie.finite.Sn_trivial}[kind](n))
    if l[0] == "U1":
        return lie.GenericRep(A=z((1, 1, 1)), X=np.array([[[1j * l[1]]]]), H=z((0, 1, 1)))
    if l[0] == "AB":
        n, X = len(l[1]), np.array(l[1], float) * 1j / 32
        return lie.GenericRep(A=z((n, n, n)), X=X.reshape(-1, 1, 1), H=np.array(l[2], float).reshape(-1, 1, 1))
    if l[0] == "O2":
        if l[1] == 0:
            return lie.GenericRep(A=z((1, 1, 1)), X=z((1, 1, 1)), H=np.array([[[float(l[2])]]]))
        return lie.GenericRep(A=z((1, 1, 1)), X=l[1] * np.array([[[0.0, -1], [1, 0]]]), H=np.array([[[1.0, 0], [0, -1]]]))
    if l[0] in FIN:
        H = np.array(FIN[l[0]][l[1] - 1])
        return lie.GenericRep(A=z((0, 0, 0)), X=z((0, H.shape[1], H.shape[1])), H=H if H.dtype == complex else H.astype(float))
    r, s = (hl.make(["SU2", l[1]]), ext_irrep(["SN", l[2], 3])) if l[0] == "MIX" else (hl.make(l[1]), ext_irrep(l[2]))
    H = [np.kron(h, np.eye(s.dim)) for h in r.H] + [np.kron(np.eye(r.dim), h) for h in s.H]
    return lie.GenericRep(A=r.A, X=np.stack([np.kron(x, np.eye(s.dim)) for x in r.X]), H=np.stack(H))


def sn_rep(content, rng):
    """direct sum of representations of S_n, O(2), U(1) or SU(2) x S_3, in a random orthogonal basis"""
    import lie_nn as lie

    out = None
    for l, m in content:
        for _ in range(m):
            r = ext_irrep(l)
            out = r if out is None else lie.direct_sum(out, r)
    return lie.change_basis(out, hl.orthogonal(rng, out.dim))


GEN = [
    (["SU2", 1], ["SU2", 0], ["SU2", 2]), (["SO3", 1], ["SO3", 0], ["SO3", 2]), (["O3", 1, -1], ["O3", 0, -1], ["O3", 1, 1]),
    (["SUN", [1, 0, 0]], ["SUN", [1, 1, 0]], ["SUN", [0, 0, 0]]), (["SL2C", 1, 0], ["SL2C", 0, 1], ["SL2C", 0, 0]),
    (["SO13", 1, 1], ["SO13", 0, 0], ["SO13", 2, 0]), (["SU2Real", 1], ["SU2Real", 2], ["SU2Real", 0]), (["Z2", 1], ["Z2", -1], ["Z2", 1]),
    (["PROD", ["SU2", 1], ["Z2", -1]], ["PROD", ["SU2", 0], ["Z2", 1]], ["PROD", ["SU2", 1], ["Z2", 1]]),
]


def gcg_jobs(tier, rng):
    js = []
    q = tier == "quick"
    kinds = ["irrep", "mul", "red", "redq", "genq"]
    n = 40 if q else 160
    for t in range(n):
        base = GEN[t % len(GEN)]
        for _ in range(50):
            ks = [kinds[i] for i in rng.integers(0, 5, 3)]
            if t < len(GEN):
                ks[t % 3] = kinds[(t // 2) % 5]
            cs = []
            for k in ks:
                p = rng.permutation(3)
                if k == "irrep":
                    cs.append([[base[p[0]], 1]])
                elif k == "mul":
                    cs.append([[base[p[0]], int(rng.integers(0 if t % 7 == 0 else 1, 4))]])
                else:
                    c = [[base[p[0]], int(rng.integers(1, 3))], [base[p[1]], 1]]
                    if t % 5 == 0:
                        c.append([base[p[2]], 0])
                    cs.append(c)
            D = [sum(m * dim(l) for l, m in c) for c in cs]
            if np.prod(D) <= (120 if q else 250) and ks != ["irrep"] * 3:
                break
        else:
            continue
        js.append(gcg_job(t, cs, ks, int(rng.integers(1 << 30))))
    for t in range(8 if q else 24):
        m = 3 if t % 2 == 0 else (4 if t % 4 == 1 else 2)
        pool = ["nat", "std", "triv", "sign"]
        while True:
            cs = [[[["SN", pool[i], m], int(rng.integers(1, 3))] for i in rng.permutation(4)[: rng.integers(1, 3)]] for _ in range(3)]
            D = [sum(mu * {"nat": m, "std": m - 1, "triv": 1, "sign": 1}[l[1]] for l, mu in c) for c in cs]
            if np.prod(D) <= 150:
                break
        js.append(gcg_job(1000 + t, cs, ["SN"] * 3, int(rng.integers(1 << 30))))
    for t in range(30 if q else 120):
        pool = EXT[list(EXT)[t % len(EXT)]]
        while True:
            cs = [[[pool[i], int(rng.integers(1, 3))] for i in rng.permutation(len(pool))[: rng.integers(1, 3)]] for _ in range(3)]
            D = [sum(mu * ext_dim(l) for l, mu in c) for c in cs]
            if np.prod(D) <= 150:
                break
        js.append(gcg_job(2000 + t, cs, ["EXT"] * 3, int(rng.integers(1 << 30))))
    return js


def gcg_job(t, cs, ks, seed):
    key = f"gcg{t}:" + ",".join(k + "[" + "+".join(f"{m}x{hl.lab_str(l)}" for l, m in c) + "]" for k, c in zip(ks, cs))

    def f(T):
        import lie_nn as lie

        def build():
            rng = np.random.default_rng(seed)
            rs = [sn_rep(c, rng) if k in ("SN", "EXT") else content_rep(c, k, rng) for c, k in zip(cs, ks)]
            C = lie.clebsch_gordan(*rs)
            return {"c1": cs[0], "c2": cs[1], "c3": cs[2], "r1": hl.rep(rs[0]), "r2": hl.rep(rs[1]), "r3": hl.rep(rs[2]), **cg_fields(C)}

        tags = ["gcg/" + {"redq": "red", "genq": "gen"}.get(k, k) for k in ks]
        T.emit("gcg", key, tags, build)

    return f


def ord_job(pr, rng):
    F = prod_family(pr)
    F = [F[i] for i in rng.permutation(len(F))[:8]]
    F += [["PROD", F[0][1], F[-1][2]], ["PROD", F[-1][1], F[0][2]]]

    def f(T):
        def build():
            r = [hl.make(l) for l in F]
            m = lambda g: [[bool(g(a, b)) for b in r] for a in r]  # noqa: E731
            return {"labels": F, "lt": m(lambda a, b: a < b), "lt1": m(lambda a, b: a.rep1 < b.rep1), "lt2": m(lambda a, b: a.rep2 < b.rep2),
                    "eq": m(lambda a, b: a == b), "triv": [hl.label_of(a.create_trivial()) for a in r], "dims": [int(a.dim) for a in r]}

        T.emit("ord", "ord:" + hl.lab_str(F[0]) + hl.lab_str(F[1]), ["ord"], build)

    return f


def jobs(prop, tier, seed, out):
    rng = np.random.default_rng(seed)
    if prop == "C14":
        js = [pair_job(a, b, prop, rng) for a, b in pairs(tier, rng, prop) if a[0] == "PROD"]
        return js + [ord_job(pr, rng) for pr in PROD for _ in range(1 if tier == "quick" else 6)]
    js = [pair_job(a, b, prop, rng) for a, b in pairs(tier, rng, prop)]
    if prop in ("C04", "C05"):
        js += gcg_jobs(tier, rng)
        js += [pair_job(a, b, prop, rng, k) for a, b, k in big_pairs(tier, rng)]
    return [js[i] for i in rng.permutation(len(js))]
