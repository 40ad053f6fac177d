"""Replays behaviours of Session.tla in the library (SessionTrace: C07-C14, C27, C29)."""
import glob
import json
import os

import numpy as np

import hl


def lib():
    import lie_nn as lie

    return lie


def matrix(rng, kind, d):
    if kind == "gen":
        return hl.invertible(rng, d, False, 3.0)
    if kind == "cplx":
        return hl.invertible(rng, d, True, 3.0)
    if kind == "orth":
        return hl.orthogonal(rng, d)
    if kind == "unit":
        return hl.unitary(rng, d)
    if kind == "int":
        return hl.unimodular(rng, d, steps=min(d, 6))
    if kind == "tiny":
        return hl.invertible(rng, d, True, 3.0)
    raise ValueError(kind)


def classes(reps):
    """classes of coordinates between which no generator of the (summed) representations has an entry"""
    out, n = [], 0
    for r in reps:
        d = int(r.dim)
        c = list(range(d))
        for Y in (np.asarray(r.continuous_generators()), np.asarray(r.discrete_generators())):
            for _, i, j in zip(*np.nonzero(Y)):
                a, b = c[i], c[j]
                if a != b:
                    c = [min(a, b) if x in (a, b) else x for x in c]
        out += [n + x + 1 for x in c]
        n += d
    return out


def spread(rng, Q, comp):
    """Q times a diagonal matrix, constant on the classes, of small and very different scales"""
    s = {c: 1e-6 * 10.0 ** rng.choice([-2, 0, 2]) for c in sorted(set(comp))}
    return Q * np.array([s[c] for c in comp])


def alg_matrix(rng, kind, A, second=None):
    """a change of basis of the algebra whose structure constants stay below 12"""
    n = A.shape[0]
    while True:
        Q = hl.orthogonal(rng, n) if kind == "orth" else hl.unimodular(rng, n, steps=min(n, 3)) if kind == "int" else hl.invertible(rng, n, kind == "cplx", 2.0)
        P = Q if second is None else Q @ second
        B = np.einsum("ia,jb,abc,ck->ijk", P, P, A, np.linalg.inv(P))
        if np.abs(B).max() <= 12:
            return Q


def kind_of(r):
    lie = lib()
    if isinstance(r, lie.TabulatedIrrep):
        return "irrep"
    if isinstance(r, lie.MulIrrep):
        return "mul"
    if isinstance(r, lie.ReducedRep):
        return "red"
    return "gen"


def listing(r, m=1):
    """[[label, multiplicity]] of a structured representation, ["?"] for a part without a label"""
    k = kind_of(r)
    if k == "irrep":
        return [[hl.label_of(r), m]]
    if k == "mul":
        return listing(r.rep, m * int(r.mul))
    if k == "red":
        return [x for p in r.irreps for x in listing(p, m)]
    return [[["?"], m]]


def parts(r):
    """parts of a structured representation: distinct part representations and the sequence of [which, multiplicity]"""
    k = kind_of(r)
    if k == "irrep":
        seq = [(1, r)]
    elif k == "mul":
        seq = [(int(r.mul), r.rep)]
    else:
        seq = [(int(p.mul), p.rep) for p in r.irreps]
    reps, keys, out = [], [], []
    for m, p in seq:
        key = (kind_of(p), repr(p)) if kind_of(p) == "irrep" else id(p)
        if key not in keys:
            keys.append(key)
            reps.append(hl.rep(p))
        out.append([keys.index(key) + 1, m])
    Q = getattr(r, "Q", None) if k == "red" else None
    return {"reps": reps, "seq": out, "Q": hl.mat(np.eye(r.dim) if Q is None else np.asarray(Q) / max(1e-300, np.abs(Q).max(initial=0.0)))}


def dig(r):
    k = kind_of(r)
    ex = []
    if k in ("mul", "red"):
        ex = [listing(r), None if getattr(r, "Q", None) is None else hl.canon(np.asarray(r.Q))]
    return hl.sha([k, ex, np.asarray(r.algebra()), np.asarray(r.continuous_generators()), np.asarray(r.discrete_generators())])


def other(kind, n):
    """representations of U(1) (31), the Heisenberg (32) and affine (33) groups and O(2) (34)"""
    def unit(d, i, j):
        m = np.zeros((d, d))
        m[i, j] = 1.0
        return m
    H = []
    A = {31: np.zeros((1, 1, 1)), 32: np.zeros((3, 3, 3)), 33: np.zeros((2, 2, 2)), 34: np.zeros((1, 1, 1))}[n]
    if n == 31:
        X = {"eps": [np.array([[1j * 2.0**-12]])], "two": [np.array([[2j]])], "pm": [np.diag([1j, -1j])], "triv": [np.zeros((1, 1))]}[kind]
    elif n == 32:  # [x0, x1] = x2
        A[0, 1, 2], A[1, 0, 2] = 1.0, -1.0
        X = {"std": [unit(3, 0, 1), unit(3, 1, 2), unit(3, 0, 2)], "char": [np.array([[0.5]]), np.array([[1j]]), np.zeros((1, 1))],
             "triv": [np.zeros((1, 1))] * 3}[kind]
    elif n == 33:  # [x0, x1] = x1
        A[0, 1, 1], A[1, 0, 1] = 1.0, -1.0
        X = {"std": [unit(2, 0, 0), unit(2, 0, 1)], "char": [np.array([[-1.5]]), np.zeros((1, 1))], "dual": [-unit(2, 0, 0), -unit(2, 1, 0)]}[kind]
    else:
        q = {"one": 1.0, "half": 0.5, "det": 0.0, "triv": 0.0}[kind]
        J = np.array([[0.0, -1.0], [1.0, 0.0]])
        X, H = ([q * J], [np.diag([1.0, -1.0])]) if q else ([np.zeros((1, 1))], [np.array([[-1.0 if kind == "det" else 1.0]])])
    X = np.array(X)
    return lib().GenericRep(A, X, np.array(H).reshape((len(H),) + X.shape[1:]))


def load(label):
    lie = lib()
    if label[0] == "SN" and label[2] == 30:
        w, c = np.exp(2j * np.pi / 3), np.sqrt(0.5)
        U = np.array([[c, 1j * c], [1j * c, c]])
        H = {"w": np.array([[w]]), "w2": U @ np.diag([w, 1.0]) @ U.conj().T, "triv": np.eye(1)}[label[1]]
        return lie.GenericRep(np.zeros((0, 0, 0)), np.zeros((0,) + H.shape), H[None])
    if label[0] == "SN" and label[2] > 30:
        return other(label[1], label[2])
    if label[0] == "SN":
        return {"std": lie.finite.Sn_standard, "nat": lie.finite.Sn_natural, "triv": lie.finite.Sn_trivial}[label[1]](label[2])
    return hl.make(label)


def disguise(rng, r, how):
    """the object, conjugated by a unitary or by a complex orthogonal matrix, or with its matrices turned by unit phases"""
    lie = lib()
    if how == "asis" or r.dim == 0:
        return r
    X, H = np.array(r.continuous_generators(), dtype=complex), np.array(r.discrete_generators(), dtype=complex)
    if how == "phase":
        return lie.GenericRep(np.array(r.algebra()), X + 0.7j * np.eye(r.dim), H * np.exp(2j * np.pi / 3))
    if how == "unit":
        P = hl.unitary(rng, r.dim)
        Pi = P.conj().T
    else:
        S = rng.normal(size=(r.dim, r.dim)) * 0.4
        w, V = np.linalg.eigh(1j * (S - S.T))
        P = (V * np.exp(w)) @ V.conj().T @ hl.orthogonal(rng, r.dim)
        Pi = P.T
    return lie.GenericRep(np.array(r.algebra()), P @ X @ Pi, P @ H @ Pi)


def perturb(rng, r, e):
    """a generic representation-like object whose generators are off by a known amount"""
    lie = lib()
    g = lie.GenericRep(np.array(r.algebra()), np.array(r.continuous_generators(), dtype=complex), np.array(r.discrete_generators(), dtype=complex))
    if e == 0 or g.dim == 0:
        return r
    if e == 1 and len(g.X):
        a, i, j = rng.integers(len(g.X)), rng.integers(g.dim), rng.integers(g.dim)
        g._X[a, i, j] += 1e-3
    elif e == 2 and len(g.X):
        a, i = rng.integers(len(g.X)), rng.integers(g.dim)
        g._X[a, i, i] += 1j * 1e-3  # keeps a representation anti-Hermitian
    elif e == 4 and len(g.H):
        g._H = g._H * (1 + 4e-6)
    elif e == 5 and len(g.X):
        g._X[0] += 1e-6 * np.eye(g.dim)
    elif len(g.H):
        a, i, j = rng.integers(len(g.H)), rng.integers(g.dim), rng.integers(g.dim)
        g._H[a, i, j] += 1e-3 if e == 3 else 1e-2
    return g


def session(T, b, seed, prop):
    lie = lib()
    rng = np.random.default_rng([seed, b["num"]])
    store = []  # objects or None
    name = f"{b['group']}.{b['variant']}.{b['num']}"
    T.emit("begin", name + ":begin", [], lambda: {"group": b["group"]})

    def obj(i):
        r = store[i - 1]
        if r is None:
            raise KeyError("operand")
        return r

    def digs(ids):
        if prop != "C27":
            return []
        return [[i, dig(store[i - 1])] for i in ids if store[i - 1] is not None]

    PUSH = {"load", "mul", "red", "gen", "tp", "tpow", "dsum", "cb", "ca", "conj", "gp", "gp3", "triv"}
    for n, a in enumerate(b["acts"]):
        op = a["op"]
        ops = [a[x] for x in ("i", "j", "k") if x in a] + list(a.get("ids", []))
        key = f"{name}:{n + 1}:{op}:" + ",".join(str(a[x]) for x in sorted(a) if x != "op")
        if any(store[i - 1] is None for i in ops):
            T.emit("skip", key, [], lambda: {"push": op in PUSH})
            if op in PUSH:
                store.append(None)
            continue
        made = []

        def build():
            f = {"args": ops}
            res = None
            if op == "load":
                f["label"] = a["label"]
                res = load(a["label"])
            elif op == "mul":
                f["m"] = a["m"]
                res = lie.MulIrrep(mul=a["m"], rep=obj(a["i"]))
                if n % 2 and isinstance(res.rep, lie.MulIrrep):
                    res = lie.MulIrrep(a["m"], obj(a["i"]))
            elif op == "red":
                ps = [obj(i) for i in a["ids"]]
                d = sum(p.dim for p in ps)
                Q = None if a["q"] == "none" else matrix(rng, a["q"], d)
                f["Q"] = hl.mat(np.eye(d) if Q is None else Q)
                f["comp"] = classes(ps) if a["q"] == "tiny" else []
                if a["q"] == "tiny":
                    Q = spread(rng, Q, f["comp"])
                if n % 2:
                    ps = [(1, p) if kind_of(p) == "irrep" else p for p in ps]
                res = lie.ReducedRep.from_irreps(ps, Q)
            elif op == "gen":
                res = lie.GenericRep.from_rep(obj(a["i"]))
            elif op == "tp":
                res = lie.tensor_product(obj(a["i"]), obj(a["j"]))
            elif op == "tpow":
                f["p"] = a["p"]
                res = lie.tensor_power(obj(a["i"]), a["p"])
            elif op == "dsum":
                res = lie.direct_sum(obj(a["i"]), obj(a["j"]))
            elif op == "cb":
                r = obj(a["i"])
                Q = matrix(rng, a["q"], r.dim)
                f["Q"] = hl.mat(Q)
                f["comp"] = classes([r]) if a["q"] == "tiny" else []
                if a["q"] == "tiny":
                    Q = spread(rng, Q, f["comp"])
                res = lie.change_basis(r, Q)
            elif op == "cbpair":
                r = obj(a["i"])
                Q, Q2 = matrix(rng, a["q"], r.dim), matrix(rng, a["q2"], r.dim)
                f["Q"], f["Q2"] = hl.mat(Q), hl.mat(Q2)
                f["comp"] = classes([r]) if a["q"] == "tiny" else []
                if a["q"] == "tiny":
                    Q = spread(rng, Q, f["comp"])
                r1 = lie.change_basis(r, Q)
                f["one"] = hl.rep(r1)
                f["two"] = hl.rep(lie.change_basis(r1, Q2))
                f["joint"] = hl.rep(lie.change_basis(r, Q2 @ Q))
                f["back"] = hl.rep(lie.change_basis(r1, np.linalg.inv(Q)))
            elif op == "near":
                r, eps = obj(a["i"]), 2.0**-30
                m = int(r.lie_dim) if a["what"] == "ca" else r.dim
                N = rng.uniform(-1, 1, (m, m)) + 1j * rng.uniform(-1, 1, (m, m)) * (a["what"] != "ca")
                if a["how"] == "diag":
                    N = np.diag(np.diag(N))
                Q = np.eye(m) + eps * N
                if not np.any(Q.imag):
                    Q = Q.real
                if a["what"] == "ca":
                    new = lie.change_algebra(r, Q)
                elif a["what"] == "cb":
                    new = lie.change_basis(r, Q)
                elif a["what"] == "red":
                    new = lie.ReducedRep.from_irreps([r], Q)
                elif a["what"] == "tpl":
                    new = lie.tensor_product(lie.change_basis(r, Q), r.create_trivial())
                else:
                    new = lie.tensor_product(r.create_trivial(), lie.change_basis(r, Q))
                f["what"] = a["what"]
                f["N"] = hl.mat(N)
                f["diff"] = hl.rep(lie.GenericRep(*[(np.asarray(getattr(new, x)) - np.asarray(getattr(r, x))) / eps for x in ("A", "X", "H")]))
            elif op == "ca":
                r = obj(a["i"])
                Q = alg_matrix(rng, a["q"], np.asarray(r.algebra()))
                f["Q"] = hl.mat(Q)
                res = lie.change_algebra(r, Q)
            elif op == "catilt":
                r = obj(a["i"])
                Q = alg_matrix(rng, a["q"], np.asarray(r.algebra()))
                f["Q"] = hl.mat(Q)
                s = 10.0 ** -rng.permutation(np.arange(len(Q)) % 5)
                t = lie.change_algebra(r, s[:, None] * Q)
                f["rep"] = hl.rep(lie.GenericRep(np.asarray(t.A) * s / s[:, None, None] / s[None, :, None], np.asarray(t.X) / s[:, None, None], np.asarray(t.H)))
            elif op == "capair":
                r = obj(a["i"])
                Q = alg_matrix(rng, a["q"], np.asarray(r.algebra()))
                Q2 = alg_matrix(rng, a["q2"], np.asarray(r.algebra()), Q)
                f["Q"], f["Q2"] = hl.mat(Q), hl.mat(Q2)
                r1 = lie.change_algebra(r, Q)
                f["one"] = hl.rep(r1)
                f["two"] = hl.rep(lie.change_algebra(r1, Q2))
                f["joint"] = hl.rep(lie.change_algebra(r, Q2 @ Q))
            elif op == "conj":
                res = lie.conjugate(obj(a["i"]))
                f["twice"] = hl.rep(lie.conjugate(res))
            elif op == "isunit":
                f["eps"] = a["eps"]
                r = perturb(rng, disguise(rng, obj(a["i"]), a["how"]), a["eps"])
                f["seen"] = hl.rep(r)
                X, H = np.asarray(r.X), np.asarray(r.H)
                dev = 0.0
                if X.size:
                    dev = max(dev, np.abs(X + np.conj(np.swapaxes(X, 1, 2))).max())
                if H.size:
                    dev = max(dev, np.abs(H @ np.conj(np.swapaxes(H, 1, 2)) - np.eye(r.dim)).max())
                f["dev14"] = int(min(round(dev * 1e14), 10**9))
                f["val"] = bool(lie.is_unitary(r))
            elif op in ("gp", "gp3"):
                f["nf"] = len(ops)
                res = lie.group_product(*[obj(i) for i in ops])
            elif op == "triv":
                res = obj(a["i"]).create_trivial()
            elif op == "istriv":
                r = obj(a["i"])
                if a["eps"] and r.dim == 1:
                    X, H = np.array(r.X, dtype=complex), np.array(r.H, dtype=complex)
                    if a["eps"] == 1 and len(X):
                        X[-1] += 2.0**-30
                    elif a["eps"] == 2 and len(X) > 1:
                        X[0], X[-1] = X[0] + 0.5, X[-1] - 0.5
                    elif len(H):
                        H[-1] *= 1 + 2.0**-30 if a["eps"] < 3 else 1j
                    r = lie.GenericRep(np.asarray(r.A), X, H)
                f["eps"] = a["eps"]
                Y = np.concatenate([np.asarray(r.X), np.asarray(r.H) - np.eye(r.dim)]) * 2.0**30
                f["fine"] = hl.mats(np.clip(Y.real, -1000, 1000) + 1j * np.clip(Y.imag, -1000, 1000))
                f["val"] = bool(r.is_trivial())
            else:
                raise ValueError(op)
            if res is not None:
                f["rep"] = hl.rep(res)
                f["kind"] = kind_of(res)
                f["dig"] = dig(res) if prop == "C27" else ""
                f["alias"] = any(res is x for x in store)
                if f["kind"] == "irrep":
                    f["label"] = hl.label_of(res)
                if prop == "C08" and f["kind"] != "gen":
                    f["listing"] = listing(res)
                    f["parts"] = parts(res)
                if op in ("red", "cb") and prop == "C10" and f["kind"] == "red":
                    f["parts"] = parts(res)
                made.append(res)
            f["after"] = digs(sorted(set(ops)))
            return f

        ev = T.emit(op, key, [op, op + "/" + "+".join(kind_of(store[i - 1]) for i in ops[:2]), b["group"]] if ops else [op], build,
                    **({"timeout": 20, "hang": {"op": "skip", "push": op in PUSH}} if b.get("walk") else {}))
        if op in PUSH:
            store.append(made[0] if made and not ev["exc"] else None)
    T.emit("sweep", name + ":sweep", ["sweep"], lambda: {"after": digs(range(1, len(store) + 1))})


def behaviours(out, chunk):
    res = []
    for p in sorted(glob.glob(os.path.join(out, "*.beh"))):
        for line in open(p):
            b = json.loads(line)
            acts = b["acts"]
            if os.path.basename(p).startswith("cover") and chunk:
                base, rest = acts[:9], acts[9:]
                for c in range(0, max(1, len(rest)), chunk):
                    res.append(dict(b, acts=base + rest[c: c + chunk]))
            else:
                res.append(dict(b, walk=not os.path.basename(p).startswith("cover")))
    for i, b in enumerate(res):
        b["num"] = i + 1
    return res


def jobs(prop, tier, seed, out):
    bs = behaviours(out, 0 if prop in ("C29",) else 24)
    rng = np.random.default_rng(seed)
    js = [lambda T, b=b: session(T, b, seed, prop) for b in bs]
    order = rng.permutation(len(js))
    js = [js[i] for i in order]
    return js
