"""Observation of the exponential map (ExpTrace: C19)."""
import numpy as np

import hl

U = 1024


def jobs(prop, tier, seed, out):
    import lie_nn as lie

    rng = np.random.default_rng(seed)
    q = tier == "quick"
    js = []

    bases = {
        "SU2": [["SU2", j] for j in range(0, 5)], "SO3": [["SO3", l] for l in range(0, 3)], "O3": [["O3", l, p] for l in range(0, 3) for p in (1, -1)],
        "SL2C": [["SL2C", a, b] for a in range(0, 3) for b in range(0, 2)], "SO13": [["SO13", 0, 0], ["SO13", 1, 1], ["SO13", 0, 2], ["SO13", 2, 0]],
        "SU2Real": [["SU2Real", j] for j in range(0, 4)], "SUN": [["SUN", [1, 0, 0]], ["SUN", [1, 1, 0]], ["SUN", [2, 0, 0]], ["SUN", [2, 1, 0]], ["SUN", [0, 0, 0]]],
        "SUN4": [["SUN", [1, 0, 0, 0]], ["SUN", [1, 1, 0, 0]]], "Z2": [["Z2", 1], ["Z2", -1]],
        "PROD": [["PROD", ["O3", 1, -1], ["SU2", 1]], ["PROD", ["O3", 0, -1], ["SU2", 1]], ["PROD", ["O3", 1, 1], ["SU2", 0]]],
        "PRODZ": [["PROD", ["PROD", ["Z2", -1], ["Z2", 1]], ["SO3", 1]], ["PROD", ["PROD", ["Z2", 1], ["Z2", -1]], ["SO3", 0]]],
    }
    reps = {g: [(hl.lab_str(x), hl.make(x)) for x in ls] for g, ls in bases.items()}
    F = lie.finite
    for n in (2, 3, 4, 5):
        reps[f"S{n}"] = [("nat", F.Sn_natural(n)), ("std", F.Sn_standard(n)), ("triv", F.Sn_trivial(n))]

    # groups that are not reductive: elements that cannot be diagonalised
    def unit(d, *ij):
        m = np.zeros((d, d))
        for i, j in ij:
            m[i, j] = 1
        return m
    J = unit(4, (0, 1), (1, 2), (2, 3))
    for g, Xs in {"HEIS": [unit(3, (0, 1)), unit(3, (1, 2)), unit(3, (0, 2))], "NIL": [J, J @ J, J @ J @ J], "AFF": [unit(2, (0, 0)), unit(2, (0, 1))],
                  "EUCL": [unit(3, (0, 1)) - unit(3, (1, 0)), unit(3, (0, 2)), unit(3, (1, 2))], "JORD": [np.eye(3) + unit(3, (0, 1), (1, 2))]}.items():
        r = lie.GenericRep.from_generators(np.stack(Xs))
        reps[g] = [("def", r), ("pow", lie.GenericRep.from_rep(lie.tensor_power(r, 2))), ("triv", r.create_trivial())]
    from drv_cg import EXT, ext_irrep

    for g in ("U1", "O2", "LF0", "LF1", "LF3", "C3", "C4", "Q8", "A4"):
        reps[g] = [(hl.lab_str(l), ext_irrep(l)) for l in EXT[g][-2:] + EXT[g][:1]]

    def params(r, size):
        return [int(x) for x in rng.integers(-size, size + 1, size=r.lie_dim)]

    def ex(name, g, r, extra=()):
        d, n, m = r.dim, r.lie_dim, len(r.H)
        t = params(r, 1500 if d <= 4 else 700)
        steps = 4
        # the chain starts at t / 2^steps: make t divisible
        t = [x - x % (1 << steps) for x in t]
        k = [int(x) for x in rng.integers(-2, 6, size=m)]
        s2 = [x for x in t]

        def build():
            tt = np.array(t, dtype=float) / U
            zk, zt = np.zeros(m, dtype=int), np.zeros(n)
            chain = [r.exp_map(tt / 2 ** (steps - i), zk) for i in range(steps + 1)]
            a, b = 0.25, 0.5
            return {"rep": hl.rep(r), "tsmall": [x >> steps for x in s2], "chain": [hl.mat(c) for c in chain], "k": k, "zero": hl.mat(r.exp_map(zt, zk)),
                    "iH": [hl.mat(np.linalg.inv(h)) for h in np.asarray(r.H)], "disc": hl.mat(r.exp_map(zt, np.array(k, dtype=int))), "full": hl.mat(r.exp_map(tt, np.array(k, dtype=int))),
                    "es": hl.mat(r.exp_map(a * tt, zk)), "et": hl.mat(r.exp_map(b * tt, zk)), "est": hl.mat(r.exp_map((a + b) * tt, zk))}
        tg = ["exp", "LF" if g[:2] == "LF" else g.rstrip("4Z") if g.startswith(("SUN", "PROD")) else g] + list(extra) + (["negative"] if min(k, default=0) < 0 else []) + (["twodiscrete"] if m > 1 and all(k) else [])
        js.append(lambda T: T.emit("exp", f"exp:{g}:{name}:{t}:{k}", tg, build))

    for g, rs in reps.items():
        for name, r in rs:
            for _ in range(1 if q else 5):
                ex(name, g, r)
            if g in ("S3", "S4", "PRODZ") and q:
                ex(name, g, r)
            if r.dim > 1:
                ex(name + ":cb", g, lie.change_basis(r, hl.invertible(rng, r.dim, True, 2.0)), ["generic", "complexbasis"])
                if r.lie_dim:
                    ex(name + ":ca", g, lie.change_algebra(r, hl.invertible(rng, r.lie_dim, False, 2.0)), ["generic"])

    def deriv(g, name, r):
        t = params(r, 1000)
        zk = np.zeros(len(r.H), dtype=int)
        js.append(lambda T: T.emit("deriv", f"deriv:{g}:{name}:{t}", ["deriv"], lambda: {
            "rep": hl.rep(r), "t": t, "diff": hl.mat((r.exp_map(np.array(t) / U * 2.0**-30, zk) - np.eye(r.dim)) * 2.0**30)}))

    for g, rs in reps.items():
        for name, r in rs:
            if r.lie_dim:
                deriv(g, name, r)
                deriv(g, name + ":ca", lie.change_algebra(r, hl.invertible(rng, r.lie_dim, False, 2.0)))

    def compose(g, na, a, nb, b):
        t = np.array(params(a, 900), dtype=float) / U
        k = rng.integers(0, 4, size=len(a.H))

        def build():
            return {"a": hl.mat(a.exp_map(t, k)), "b": hl.mat(b.exp_map(t, k)), "tp": hl.mat(lie.tensor_product(a, b).exp_map(t, k)),
                    "sum": hl.mat(lie.direct_sum(lie.GenericRep.from_rep(a), b).exp_map(t, k))}
        js.append(lambda T: T.emit("compose", f"compose:{g}:{na}:{nb}", ["compose"], build))

    def basis(g, name, r):
        Q = hl.invertible(rng, r.dim, bool(rng.integers(2)), 3.0)
        t = np.array(params(r, 900), dtype=float) / U
        k = rng.integers(0, 4, size=len(r.H))
        js.append(lambda T: T.emit("basis", f"basis:{g}:{name}", ["basis"], lambda: {
            "e": hl.mat(r.exp_map(t, k)), "Q": hl.mat(Q), "cb": hl.mat(lie.change_basis(r, Q).exp_map(t, k))}))

    for g, rs in reps.items():
        prs = [(x, y) for x in rs for y in rs if x[1].dim * y[1].dim <= 24]
        for (na, a), (nb, b) in prs if not q else [prs[i] for i in rng.permutation(len(prs))[:4]]:
            compose(g, na, a, nb, b)
        for name, r in rs:
            if r.dim > 1:
                for _ in range(1 if q else 4):
                    basis(g, name, r)

    def jax_case(g, name, r):
        t = np.array(params(r, 1200), dtype=float) / U
        k = rng.integers(-4, 6, size=len(r.H))

        def build():
            import jax.numpy as jnp
            from lie_nn._src import jax_utils

            return {"np": hl.mat(r.exp_map(t, k)), "jax": hl.mat(np.asarray(jax_utils.exp_map(r, jnp.asarray(t), jnp.asarray(k))))}
        js.append(lambda T: T.emit("jax", f"jax:{g}:{name}:{k.tolist()}", ["jax"], build))

    for g, rs in reps.items():
        sel = [x for x in rs if x[1].dim > 1] or rs
        for name, r in sel[:2] if q else rs:
            jax_case(g, name, r)

    def jaxpow(d, cplx, k):
        A = rng.integers(-1, 2, size=(d, d)).astype(float)
        if cplx:
            A = A + 1j * rng.integers(-1, 2, size=(d, d))

        def ints(M):
            M = np.asarray(M).astype(complex)
            return [[[int(round(z.real)), int(round(z.imag))] for z in row] for row in M]

        def build():
            import jax.numpy as jnp
            from lie_nn._src import jax_utils

            R = np.asarray(jax_utils.matrix_power(jnp.asarray(A), k))
            return {"F": ints(A), "k": k, "out": ints(R) if np.all(np.isfinite(R)) else []}
        js.append(lambda T: T.emit("jaxpow", f"jaxpow:{d}:{cplx}:{k}:" + hl.digest(A)[:6], ["jaxpow"], build))

    for d in (1, 2, 3):
        for cplx in (False, True):
            for k in range(0, 8):
                for _ in range(1 if q else 6):
                    jaxpow(d, cplx, k)
    def monomial(d):
        """a permutation matrix whose entries are turned by fourth roots of unity: exact in every precision"""
        return np.eye(d)[rng.permutation(d)] * (1j ** rng.integers(0, 4, size=(d, 1)))

    def bigpow(d, m, ks):
        H = np.array([monomial(d) for _ in range(m)]).reshape(m, d, d)
        n = m % 2
        X = np.zeros((n, d, d))
        A = np.zeros((n, n, n))

        def ints(M):
            M = np.asarray(M).astype(complex)
            if M.shape != (d, d) or not np.all(np.isfinite(M)) or np.abs(M - np.round(M)).max() > 1e-3:
                return []
            return [[[int(round(z.real)), int(round(z.imag))] for z in row] for row in M]

        def build():
            import jax.numpy as jnp
            from lie_nn._src import jax_utils

            r = lie.GenericRep(A, X, H)
            k = np.array(ks, dtype=int)
            return {"H": [ints(h) for h in H], "k": ks, "np": ints(r.exp_map(np.zeros(n), k)),
                    "jax": ints(jax_utils.exp_map(r, jnp.zeros(n), jnp.asarray(k)))}
        big = any(abs(x) >= 256 for x in ks)
        js.append(lambda T: T.emit("bigpow", f"bigpow:{d}:{ks}:" + hl.digest(H)[:6], ["bigpow"] + (["bigneg"] if big and min(ks) < 0 else []), build))

    for d in (1, 2, 3, 4):
        for m in (1, 2, 3):
            for e in range(31) if not q else (0, 1, 3, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 29, 30):
                ks = [int(rng.integers(1 << e, min(1 << (e + 1), 2**31 - 1))) * int(rng.choice([1, 1, -1])) for _ in range(m)]
                bigpow(d, m, ks)
    return [js[i] for i in rng.permutation(len(js))]
