"""Observation of the finite group representations (FinTrace: C24)."""
import itertools

import numpy as np

import hl


def ii(a):
    return np.rint(np.real(np.asarray(a))).astype(int).tolist()


def integral(*arrs):
    return all(bool(np.array_equal(np.asarray(a), np.rint(np.real(np.asarray(a))))) for a in arrs)


def tables():
    t = {}
    for n in range(1, 9):
        t[f"Z{n}"] = [[(i + j) % n for j in range(n)] for i in range(n)]
    for k in (3, 4):
        ps = list(itertools.permutations(range(k)))
        t[f"S{k}"] = [[ps.index(tuple(a[i] for i in b)) for b in ps] for a in ps]
        even = [p for p in ps if sum(p[i] > p[j] for i in range(k) for j in range(i + 1, k)) % 2 == 0]
        t[f"A{k}"] = [[even.index(tuple(a[i] for i in b)) for b in even] for a in even]
    t["V4"] = [[i ^ j for j in range(4)] for i in range(4)]
    t["Z2^3"] = [[i ^ j for j in range(8)] for i in range(8)]
    for n in (4, 5, 6):  # dihedral: r^a s^b
        el = [(a, b) for b in range(2) for a in range(n)]
        t[f"D{n}"] = [[el.index(((a + (-c if b else c)) % n, (b + d) % 2)) for c, d in el] for a, b in el]
    q = [(s, k) for s in (1, -1) for k in range(4)]  # 1 i j k
    base = {(1, 2): (1, 3), (2, 3): (1, 1), (3, 1): (1, 2), (2, 1): (-1, 3), (3, 2): (-1, 1), (1, 3): (-1, 2)}

    def qm(x, y):
        s = x[0] * y[0]
        if x[1] == 0:
            return (s, y[1])
        if y[1] == 0:
            return (s, x[1])
        if x[1] == y[1]:
            return (-s, 0)
        u, k = base[(x[1], y[1])]
        return (s * u, k)
    t["Q8"] = [[q.index(qm(a, b)) for b in q] for a in q]
    return t


def jobs(prop, tier, seed, out):
    import lie_nn as lie

    rng = np.random.default_rng(seed)
    quick = tier == "quick"
    js = []
    K = {"nat": lie.finite.Sn_natural, "std": lie.finite.Sn_standard, "triv": lie.finite.Sn_trivial}

    def sn(kind, n):
        def build():
            r = K[kind](n)
            H = np.asarray(r.discrete_generators())
            t = r.create_trivial()
            tH = np.asarray(t.discrete_generators())
            return {"n": n, "kind": kind, "dim": int(r.dim), "integral": integral(H, tH), "H": ii(H), "T": ii(tH), "hshape": list(H.shape), "tshape": list(tH.shape),
                    "txshape": list(np.asarray(t.continuous_generators()).shape), "xshape": list(np.asarray(r.continuous_generators()).shape), "ashape": list(np.asarray(r.algebra()).shape)}
        js.append(lambda T: T.emit("sn", f"sn:{kind}:{n}", ["sn", kind, f"n{n}"], build))

    def split(n):
        def build():
            N, S, t = (np.asarray(K[k](n).discrete_generators()) for k in ("nat", "std", "triv"))
            return {"n": n, "N": ii(N), "S": ii(S), "T": ii(t)}
        js.append(lambda T: T.emit("split", f"split:{n}", ["split"], build))

    for n in range(1, 13 if quick else 25):
        for kind in K:
            if kind != "std" or n >= 2:
                sn(kind, n)
        if n >= 2:
            split(n)

    def regular(name, t):
        def build():
            a = np.array(t)
            D = np.asarray(lie.util.regular_representation(a))
            return {"n": len(t), "table": (np.array(t) + 1).tolist(), "shape": list(D.shape), "integral": integral(D), "D": ii(D)}
        a = np.array(t)
        js.append(lambda T: T.emit("regular", f"regular:{name}:" + hl.digest(a)[:6], ["regular"] + ([] if np.array_equal(a, a.T) else ["nonabelian"]), build))

    for name, t in tables().items():
        regular(name, t)
        t = np.array(t)
        for _ in range(2 if quick else 20):
            p = rng.permutation(len(t))
            inv = np.argsort(p)
            regular(name + ":relabelled", p[t[inv][:, inv]].tolist())
    return [js[i] for i in rng.permutation(len(js))]
