"""Observation of root systems and Weyl dimensions (RootTrace: C25)."""
import itertools

import numpy as np

import hl


def scaled(x, K):
    """an array times K as integers, with a flag that says whether it was integral"""
    a = np.asarray(x, dtype=float) * K
    ok = bool(np.all(np.isfinite(a)) and np.all(np.abs(a) < 1e6)) and bool(np.all(np.abs(a - np.rint(a)) < 1e-8))
    return {"ok": ok, "shape": [int(s) for s in a.shape], "v": np.rint(a).astype(int).tolist() if ok else []}


def limbs(n):
    n = int(n)
    out = []
    while True:
        out.append(n & 32767)
        n >>= 15
        if not n:
            return out[::-1]


def jobs(prop, tier, seed, out):
    from lie_nn._src.irreps.son import SON, SON_adjoint
    from lie_nn._src.irreps.spn import SPN
    from lie_nn._src.lie_algebra_utils import structure_algebra

    rng = np.random.default_rng(seed)
    q = tier == "quick"
    js = []

    def system(f, r):
        K = 2 * (r + 1) if f == "A" else 2

        def build():
            s = structure_algebra(f, r)
            cox = float(s["CoxeterNumber"])
            return {"family": f, "rank": r, "scale": K, "simple": scaled(s["SimpleRoots"], K), "positive": scaled(s["PositiveRoots"], K),
                    "fundamental": scaled(np.array(s["FundamentalWeights"]), K), "highest": scaled(s["MaximalRoots"], K), "weyl": scaled(s["WeylVector"], K),
                    "cartan": scaled(s["CartanMatrix"], K), "coxeter": {"ok": abs(cox - round(cox)) < 1e-9, "v": int(round(cox))}}
        js.append(lambda T: T.emit("system", f"system:{f}{r}", ["system", f"{f}{r}"], build))

    for f in "ABCD":
        for r in range(2, 13 if q else 19):
            system(f, r)

    def dim(cls, S):
        r = len(S)
        f = "C" if cls is SPN else "D" if r % 2 == 0 else "B"

        def build():
            x = cls(S=tuple(S)).dim
            ok = isinstance(x, (int, np.integer)) and x > 0
            small = ok and x < 3000
            hs = np.asarray(cls(S=tuple(S)).discrete_generators()).shape if small else (0, 0, 0)
            return {"family": f, "S": list(S), "integer": bool(ok), "dim": limbs(x) if ok else [0], "d31": int(hs[1]) if not small else int(x), "hshape": [int(v) for v in hs]}
        js.append(lambda T: T.emit("dim", f"dim:{cls.__name__}:{S}", ["dim", f"{cls.__name__}{r}"] + (["big"] if max(S) > 20 else []), build))

    for cls in (SON, SPN):
        for r, top in ((2, 5), (3, 3), (4, 2), (5, 1)) if q else ((2, 9), (3, 6), (4, 4), (5, 2), (6, 1)):
            for S in itertools.product(range(top + 1), repeat=r):
                dim(cls, S)
        for r in range(2, 11):
            for _ in range(10 if q else 60):
                dim(cls, tuple(int(x) for x in rng.integers(0, 12, size=r)))
            for _ in range(5 if q else 30):
                dim(cls, tuple(int(x) for x in rng.integers(0, 60, size=r)))

    def adjoint(n):
        def build():
            a = SON_adjoint(n)
            X = np.asarray(a.continuous_generators())
            ok = bool(np.array_equal(X, np.rint(X))) and bool(np.abs(X).max() < 100)
            return {"n": n, "ok": ok, "shape": list(X.shape), "hshape": list(np.asarray(a.discrete_generators()).shape), "X": np.rint(X).astype(int).tolist() if ok else []}
        js.append(lambda T: T.emit("adjoint", f"adjoint:{n}", ["adjoint", f"so{n}"], build))

    for n in range(3, 11 if q else 15):
        adjoint(n)
    return [js[i] for i in rng.permutation(len(js))]
