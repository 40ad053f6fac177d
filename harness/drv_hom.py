"""Observation of intertwiners, reduction and reality (HomTrace: C15, C16, C30)."""
import numpy as np

import hl
from drv_cg import EXT, content_rep, dim, ext_dim, ext_irrep, ext_tag, family, igram, prod_family, sn_rep, PROD

POOL = {
    "SU2": [["SU2", j] for j in range(4)], "SO3": [["SO3", j] for j in range(3)], "O3": [["O3", j, p] for j in range(3) for p in (1, -1)],
    "SUN3": [["SUN", S] for S in ([0, 0, 0], [1, 0, 0], [1, 1, 0], [2, 0, 0], [2, 1, 0], [2, 2, 0])],
    "SUN4": [["SUN", S] for S in ([0] * 4, [1, 0, 0, 0], [1, 1, 1, 0], [1, 1, 0, 0])], "SUN2": [["SUN", [j, 0]] for j in range(4)],
    "SL2C": [["SL2C", a, b] for a in range(3) for b in range(3) if a + b < 4], "SO13": [["SO13", a, b] for a in range(4) for b in range(4) if (a + b) % 2 == 0 and a + b < 4],
    "Z2": [["Z2", 1], ["Z2", -1]], "SU2Real": [["SU2Real", j] for j in range(4)],
}
for _i, _p in enumerate(PROD[:5]):
    POOL[f"PROD{_i}"] = [l for l in prod_family(_p) if dim(l) <= 6]


def change(rng, r, how):
    import lie_nn as lie

    d = r.dim
    if how == "id":
        return r
    Q = {"o": lambda: hl.orthogonal(rng, d), "u": lambda: hl.unitary(rng, d), "i": lambda: hl.invertible(rng, d, False, 4.0),
         "c": lambda: hl.invertible(rng, d, True, 4.0), "int": lambda: hl.unimodular(rng, d),
         "d": lambda: np.diag(np.exp(1j * rng.choice([0, 0.5, 1, 1.5, 0.25], d) * np.pi)),
         "p": lambda: np.eye(d)[rng.permutation(d)] * rng.choice([1, 1j, -1, -1j], d)}[how]()
    Y = np.concatenate([r.continuous_generators(), r.discrete_generators()])
    if how in ("int", "i", "c") and len(Y) and np.abs(Q @ Y @ np.linalg.inv(Q)).sum(axis=2).max() > 28:
        Q = hl.orthogonal(rng, d)  # stay within the range of the fixed-point arithmetic
    return lie.change_basis(r, Q)


def sn_content(rng, n, parts):
    pool = ["nat", "std", "triv", "sign"]
    return [[["SN", pool[i], n], int(rng.integers(1, 3))] for i in rng.permutation(4)[:parts]]


def pick(rng, g, dmax, kind=None):
    """(content, kind, basis)"""
    while True:
        if g.startswith("SN"):
            c = sn_content(rng, int(g[2:]), int(rng.integers(1, 4)))
            n = int(g[2:])
            d = sum(m * {"nat": n, "std": n - 1, "triv": 1, "sign": 1}[l[1]] for l, m in c)
            k = "SN"
        elif g in EXT:
            P = EXT[g]
            c = [[P[i], int(rng.integers(1, 3))] for i in rng.permutation(len(P))[: int(rng.integers(1, 4))]]
            if kind == "irrep":
                c = [[c[0][0], 1]]
            d = sum(m * ext_dim(l) for l, m in c)
            k = "SN"
        else:
            P = POOL[g]
            k = kind or ["irrep", "mul", "red", "gen"][rng.integers(4)]
            n = 1 if k in ("irrep", "mul") else int(rng.integers(1, 4))
            c = [[P[i], 1 if k == "irrep" else int(rng.integers(1, 4 if n < 3 else 3))] for i in rng.permutation(len(P))[:n]]
            d = sum(m * dim(l) for l, m in c)
        if d <= dmax:
            # charges that differ by little are told apart in bases that do not bring them closer
            return c, k, ["id", "o", "u", "p", "d", "u"][rng.integers(6)] if g[:2] == "AB" else ["id", "o", "u", "i", "c", "int"][rng.integers(6)]


def build_rep(rng, spec):
    import lie_nn as lie

    c, k, how = spec
    if k == "SN":
        r = sn_rep(c, rng)
        return change(rng, r, how)
    r = content_rep(c, "red" if k == "gen" else k, rng)
    if k == "gen":
        r = lie.GenericRep.from_rep(r)
    return change(rng, r, how)


def show(spec):
    c, k, how = spec
    return f"{k}/{how}[" + "+".join(f"{m}x{hl.lab_str(l)}" for l, m in c) + "]"


def tag(g):
    if g in EXT:
        return ext_tag(g)
    return "".join(ch for ch in g if not ch.isdigit()) if g[:3] in ("SUN", "PRO") or g[:2] == "SN" else g


def solve(r1, r2):
    """an invertible S with S r1 = r2 S if there is one (harness side, independent of the library)"""
    Y1 = np.concatenate([r1.continuous_generators(), r1.discrete_generators()])
    Y2 = np.concatenate([r2.continuous_generators(), r2.discrete_generators()])
    d1, d2 = r1.dim, r2.dim
    if len(Y1) == 0:
        return np.eye(d1), np.eye(d1)
    A = np.concatenate([np.kron(np.eye(d2), y1.T) - np.kron(y2, np.eye(d1)) for y1, y2 in zip(Y1, Y2)])
    u, s, vh = np.linalg.svd(A)
    S = vh[-1].conj().reshape(d2, d1)
    if d1 != d2:
        return None
    S = S / np.abs(np.linalg.det(S)) ** (1 / d1) if abs(np.linalg.det(S)) > 1e-9 else S
    try:
        iS = np.linalg.inv(S)
    except np.linalg.LinAlgError:
        return None
    if np.abs(S).max() > 20 or np.abs(iS).max() > 20 or max(np.abs(S @ y1 - y2 @ S).max() for y1, y2 in zip(Y1, Y2)) > 1e-6:
        return None
    return S, iS


def reference(l):
    return ext_irrep(l) if l[0] in ("SN", "LF", "AB") or l[0] in EXT else hl.make(l)


def candidates(c):
    out = []
    for l, _ in c:
        ls = [l]
        if l[0] == "SN":
            ls = {"nat": [["SN", "triv", l[2]], ["SN", "std", l[2]]]}.get(l[1], [l])
            ls = [["SN", "sign", 2] if x == ["SN", "std", 2] else x for x in ls]
        out += [x for x in ls if x not in out]
    return out


# ------------------------------------------------------------------- events
def hom_job(g, s1, s2, seed):
    def f(T):
        import lie_nn as lie

        def build():
            rng = np.random.default_rng(seed)
            r1, r2 = build_rep(rng, s1), build_rep(rng, s2)
            Q = np.asarray(lie.infer_change_of_basis(r1, r2))
            return {"c1": s1[0], "c2": s2[0], "r1": hl.rep(r1), "r2": hl.rep(r2), "W": hl.mats(Q), "shape": [int(x) for x in Q.shape], "iG": igram(Q)}

        T.emit("hom", f"hom:{show(s1)}->{show(s2)}#{seed}", ["hom", tag(g)], build)

    return f


def irr_job(g, s, seed):
    def f(T):
        import lie_nn as lie

        def build():
            r = build_rep(np.random.default_rng(seed), s)
            return {"c": s[0], "answer": bool(lie.is_irreducible(r))}

        T.emit("irr", f"irr:{show(s)}#{seed}", ["irr", tag(g)], build)

    return f


def reduce_job(g, s, seed):
    def f(T):
        import lie_nn as lie

        def build():
            r = build_rep(np.random.default_rng(seed), s)
            np.random.seed(seed % 100000)
            q = lie.reduce(r)
            parts = [m.rep for m in q.irreps]
            d = r.dim
            Q = np.eye(d) if q.Q is None else np.asarray(q.Q)
            # equilibrate: the blocks do not depend on the scale of their columns
            labels, refs, Ss, iSs = [], [], [], []
            cand = candidates(s[0])
            for p in parts:
                for l in cand:
                    ref = reference(l)
                    if ref.dim == p.dim:
                        sol = solve(p, ref)
                        if sol is not None:
                            labels.append(l)
                            refs.append(hl.rep(ref))
                            Ss.append(hl.mat(sol[0]))
                            iSs.append(hl.mat(sol[1]))
                            break
                else:
                    labels.append(["?"])
                    refs.append(hl.rep(p))
                    Ss.append(hl.mat(np.zeros((p.dim, p.dim))))
                    iSs.append(hl.mat(np.zeros((p.dim, p.dim))))
            try:
                iQ = np.linalg.inv(Q)
                # the scale of the basis does not matter: balance it with its inverse
                a = np.sqrt(np.abs(iQ).sum(axis=1).max() / np.abs(Q).sum(axis=1).max())
                Q, iQ = Q * a, iQ / a
            except np.linalg.LinAlgError:
                iQ = np.zeros_like(Q)
            return {"c": s[0], "r": hl.rep(r), "red": hl.rep(q), "muls": [int(m.mul) for m in q.irreps], "parts": [hl.rep(p) for p in parts],
                    "Q": hl.mat(Q), "iQ": hl.mat(iQ), "labels": labels, "refs": refs, "S": Ss, "iS": iSs}

        T.emit("reduce", f"reduce:{show(s)}#{seed}", ["reduce", tag(g)], build)

    return f


def isreal_job(g, l, how, seed):
    def f(T):
        import lie_nn as lie

        def build():
            r = change(np.random.default_rng(seed), reference(l), how)
            return {"label": l, "answer": bool(lie.is_real(r))}

        T.emit("isreal", f"isreal:{hl.lab_str(l)}/{how}#{seed}", ["isreal", tag(g)], build)

    return f


def mkreal_job(g, l, how, seed):
    def f(T):
        import lie_nn as lie

        def build():
            r = change(np.random.default_rng(seed), reference(l), how)
            try:
                q = lie.make_explicitly_real(r)
            except ValueError:
                return {"label": l, "refused": True}
            sol = solve(r, q)
            z = np.zeros((r.dim, r.dim))
            S, iS = sol if sol is not None else (z, z)
            return {"label": l, "refused": False, "r": hl.rep(r), "q": hl.rep(q), "S": hl.mat(S), "iS": hl.mat(iS)}

        T.emit("mkreal", f"mkreal:{hl.lab_str(l)}/{how}#{seed}", ["mkreal", tag(g)], build)

    return f


GROUPS = ["SU2", "SO3", "O3", "SUN3", "SL2C", "SO13", "Z2", "SUN2", "SUN4", "PROD0", "PROD1", "PROD2", "PROD3", "PROD4", "SN2", "SN3", "SN4", *EXT]


def jobs(prop, tier, seed, out):
    rng = np.random.default_rng(seed)
    q = tier == "quick"
    js = []
    sd = lambda: int(rng.integers(1 << 30))  # noqa: E731
    if prop == "C15":
        for g in GROUPS + ["SU2Real"]:
            for t in range(10 if q else 40):
                small = 16 if g == "SUN4" else 12
                s1, s2 = pick(rng, g, small), pick(rng, g, small)
                if g[:2] == "AB" and t % 2:  # two irreps
                    s1, s2 = pick(rng, g, small, "irrep"), pick(rng, g, small, "irrep")
                if t % 3 == 0:  # the same content in two bases
                    s2 = (s1[0], "SN" if g.startswith("SN") or g in EXT else "gen", s2[2])
                js.append(hom_job(g, s1, s2, sd()))
            for t in range(8 if q else 30):
                s = pick(rng, g, 12, "irrep" if t % 2 else None)
                if t % 4 == 2 and not g.startswith("SN") and g not in EXT:
                    l = POOL[g][rng.integers(len(POOL[g]))]
                    s = ([[l, 1]], "gen", s[2]) if t % 8 == 2 or 2 * dim(l) > 12 else ([[l, 2]], "gen", s[2])
                js.append(irr_job(g, s, sd()))
    elif prop == "C16":
        for g in GROUPS:
            for t in range(14 if q else 60):
                s = pick(rng, g, 9 if q else 12, "gen" if t % 4 else None)
                js.append(reduce_job(g, s, sd()))
    else:
        for g in GROUPS:
            if g.startswith("SN"):
                continue
            F = EXT[g] if g in EXT else POOL[g] if g[:4] == "PROD" else family(g, {"SU2": 9, "SO3": 5, "O3": 4, "SUN3": 3, "SL2C": 4, "SO13": 4, "Z2": 2, "SUN2": 6, "SUN4": 2}[g])
            F = [l for l in F if (ext_dim if g in EXT else dim)(l) <= (15 if q else 20)]
            if g[:4] == "PROD":
                F = [F[i] for i in rng.permutation(len(F))[:6]]
            for l in F:
                for how in (["id", "u", "c"] if q else ["id", "o", "u", "i", "c", "d", "p", "u", "c"]):
                    if how == "id" or q is False or rng.integers(2):
                        js.append(isreal_job(g, l, how, sd()))
                if g == "SO13":
                    continue  # not unitary
                for how in (["id", "o", "u", "d", "p"] if q else ["id"] + ["o", "u", "d", "p"] * 4):
                    js.append(mkreal_job(g, l, how, sd()))
    return [js[i] for i in rng.permutation(len(js))]
