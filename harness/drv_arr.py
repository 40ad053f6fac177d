"""Observation of the array helpers (ArrTrace: C28)."""
import numpy as np

import hl


def arr(a, scale=1):
    a = np.asarray(a)
    z = a.astype(complex).ravel() * scale
    out = []
    for x in z:
        r, i = round(x.real) if np.isfinite(x.real) else 10**6, round(x.imag) if np.isfinite(x.imag) else 10**6
        if abs(x.real - r) > 1e-6 or abs(x.imag - i) > 1e-6 or max(abs(r), abs(i)) > 10**6:
            r, i = 999999, 999999
        out.append([int(r), int(i)])
    return {"sh": [int(s) for s in a.shape], "d": out}


FUNS = {
    "affine": lambda x: 2 * x + 1,
    "sum": lambda x: np.sum(x),
    "transpose": lambda x: x.T,
    "outer": lambda x, y: np.multiply.outer(x, y),
    "sub": lambda x, y: x - 2 * y,
    "pair": lambda x, y: (x - y, 3 * x),
    "single": lambda x: (2 * x,),
    "three": lambda x, y, z: x + 2 * y + 5 * z,
}


def jobs(prop, tier, seed, out):
    from lie_nn import util
    from lie_nn._src.util import eigenspaces

    rng = np.random.default_rng(seed)
    q = tier == "quick"
    js = []

    def draw(shape, kind=None, big=3):
        kind = ["i", "f", "c"][int(rng.integers(3))] if kind is None else kind
        a = rng.integers(-big, big + 1, size=shape)
        if kind == "c":
            return a + 1j * rng.integers(-big, big + 1, size=shape)
        a = a if kind == "i" else a.astype(float)
        if rng.integers(3) == 0 and a.ndim >= 2:
            a = np.asfortranarray(a)
        return a

    def emit(op, key, tags, args, build):
        """args: arrays given to the call; build(copies) -> fields"""
        tags = [op] + tags + (["complex"] if any(np.iscomplexobj(a) for a in args) else []) + (["empty"] if any(a.size == 0 for a in args) else [])

        def go():
            cp = [np.array(a, order="K") for a in args]
            ev = build(cp)
            ev["untouched"] = all(np.array_equal(a, b) and a.dtype == b.dtype and a.shape == b.shape for a, b in zip(args, cp))
            return ev
        js.append(lambda T: T.emit(op, f"{op}:{key}:" + hl.digest(*args)[:8], tags, go))

    # ---- vmap
    def vmap(fun, args, axes, outaxis, outshape=None, plain=False):
        def build(cp):
            ax = axes[0] if plain else tuple(axes)
            kw = {} if outshape is None else {"out_shape": outshape}
            if outaxis != 0:
                kw["out_axes"] = outaxis
            f = util.vmap(FUNS[fun], **kw) if plain and axes[0] == 0 else util.vmap(FUNS[fun], ax, **kw)
            f(*cp)
            r = f(*cp)  # the mapped function can be used again
            return {"fun": fun, "args": [arr(a) for a in args], "axes": [99 if a is None else a for a in axes], "outaxis": outaxis,
                    "outshape": list(outshape) if outshape is not None else [], "outs": [arr(x) for x in (r if isinstance(r, tuple) else (r,))]}
        n = [a.shape[x] for a, x in zip(args, axes) if x is not None][0]
        tags = [] + (["emptymap"] if n == 0 else []) + (["negative-axis"] if outaxis < 0 or any(a is not None and a < 0 for a in axes) else [])
        tags += (["tuple"] if fun in ("pair", "single") else []) + (["none-axis"] if None in axes else [])
        emit("vmap", f"{fun}:{axes}:{outaxis}:{plain}", tags, args, build)

    nargs = {"affine": 1, "sum": 1, "transpose": 1, "outer": 2, "sub": 2, "pair": 2, "single": 1, "three": 3}
    for fun, k in nargs.items():
        for _ in range(25 if q else 150):
            nd = 2 if fun == "transpose" else int(rng.integers(0, 3))
            base = tuple(int(x) for x in rng.integers(1 if rng.integers(8) else 0, 4, size=nd))
            n = int(rng.integers(1, 4))
            kind = ["i", "f", "c"][int(rng.integers(3))]
            plain = bool(rng.integers(3) == 0)
            common = int(rng.integers(0, nd + 1))
            args, axes = [], []
            for i in range(k):
                nd_i = base if fun != "outer" or i == 0 else tuple(int(x) for x in rng.integers(1, 3, size=int(rng.integers(0, 2))))
                a = common if plain else int(rng.integers(0, len(nd_i) + 1))
                if plain:
                    a = min(common, len(nd_i))
                if not plain and k > 1 and i > 0 and rng.integers(4) == 0:
                    args.append(draw(nd_i, kind))
                    axes.append(None)
                    continue
                sh = nd_i[:a] + (n,) + nd_i[a:]
                args.append(draw(sh, kind))
                axes.append(a if rng.integers(4) or plain else a - len(sh))
            if plain and len(set(axes)) > 1:
                plain = False
            ond = {"sum": 0, "transpose": 2, "outer": sum(a.ndim - (x is not None) for a, x in zip(args, axes))}.get(fun, nd)
            oa = int(rng.integers(0, ond + 1))
            vmap(fun, args, axes, oa if rng.integers(4) else oa - (ond + 1), plain=plain)
    for nd in range(0, 3):
        for oa in range(0, nd + 1):
            osh = tuple(int(x) for x in rng.integers(1, 4, size=nd))
            vmap("affine", [draw((0,) + osh, "f")], [0], oa, outshape=osh)
            vmap("affine", [draw((0,) + osh, "f")], [0], oa, outshape=list(osh), plain=True)
            vmap("affine", [draw((2,) + osh, "f")], [0], oa, outshape=osh)
            vmap("affine", [draw((0,) + osh, "f")], [0], oa - nd - 1, outshape=osh)
            vmap("sub", [draw((0,) + osh, "f"), draw(osh, "f")], [0, None], oa, outshape=osh)

    # ---- matrices
    def shape2(lo=1):
        return tuple(int(x) for x in rng.integers(lo, 4, size=2))

    for n in range(1, 5):
        for _ in range(25 if q else 150):
            args = [draw(shape2(0 if rng.integers(6) == 0 else 1), big=2) for _ in range(n)]
            if np.prod([a.shape for a in args]) > 4000:
                args = [a[:2, :2] for a in args]
            emit("kron", f"{n}", ["one" if n == 1 else "many"], args, lambda cp: {"args": [arr(a) for a in cp], "out": arr(util.kron(*cp))})
    for n in range(1, 6):
        for _ in range(25 if q else 150):
            lead = tuple(int(x) for x in rng.integers(1, 4, size=int(rng.integers(0, 3))))
            args, bc = [], False
            for _ in range(n):
                l = lead
                if rng.integers(3) == 0:
                    l = tuple(1 if rng.integers(2) else x for x in l[int(rng.integers(0, len(l) + 1)):])
                    bc = bc or l != lead
                args.append(draw(l + shape2(0 if rng.integers(6) == 0 else 1)))
            if n == 1:
                bc = False
            emit("dsum", f"{n}", (["broadcast"] if bc else []) + (["leading"] if lead else []) + ["one" if n == 1 else "many"], args,
                 lambda cp: {"args": [arr(a) for a in cp], "out": arr(util.direct_sum(*cp))})
    for n in range(1, 6):
        for _ in range(25 if q else 150):
            k = int(rng.integers(0, 4))
            args = [draw((k,) + shape2(0 if rng.integers(6) == 0 else 1)) for _ in range(n)]
            emit("blocks", f"{n}", ["leading", "one" if n == 1 else "many"], args, lambda cp: {"args": [arr(a) for a in cp], "out": arr(util.block_diagonal(list(cp)))})
    for _ in range(80 if q else 500):
        d = int(rng.integers(1, 4))
        lead = tuple(int(x) for x in rng.integers(1, 4, size=int(rng.integers(0, 3))))
        a = draw(lead + (d, d))
        l2 = tuple(1 if rng.integers(2) else x for x in lead[int(rng.integers(0, len(lead) + 1)):])
        b = draw(l2 + (d, d))
        if rng.integers(2):
            a, b = b, a
        emit("comm", f"{d}", (["broadcast"] if l2 != lead else []) + (["leading"] if lead else []), [a, b], lambda cp: {"args": [arr(x) for x in cp], "out": arr(util.commutator(*cp))})

    # ---- clusters
    def unique(a, tol2):
        # tol^2 = tol2 - 1/2 lies between two integers
        tol = np.sqrt(tol2 - 0.5)

        def build(cp):
            ev = {"a": arr(a), "tol2": tol2, "err": "", "centers": arr(np.zeros(0)), "inverses": [], "exact": True}
            try:
                c, i = util.unique_with_tol(cp[0], tol=tol)
                c = np.asarray(c)
                ev["centers"] = arr(c, 840)
                ev["inverses"] = [int(x) for x in i]
            except ValueError:
                ev["err"] = "ValueError"
            return ev
        tags = ["jitter"] if tol2 > 1 else []
        fl = a.reshape(len(a), -1)
        D = (np.abs(fl[:, None] - fl[None]) ** 2).sum(-1)
        N = D < tol2 - 0.5
        clear = all(not (N[i] & N[j]).any() or (N[i] == N[j]).all() for i in range(len(a)) for j in range(i))
        emit("unique", f"{a.dtype}:{tol2}", tags + ([] if clear else ["ambiguous"]), [a], build)

    for _ in range(150 if q else 1000):
        n = int(rng.integers(1, 9))
        tail = [(), (2,), (1, 2), (2, 2)][int(rng.integers(4))]
        pool = draw((int(rng.integers(1, 5)),) + tail, big=2)
        a = pool[rng.integers(0, len(pool), size=n)]
        unique(a, 1)
        b = 20 * a + rng.integers(0, 2, size=a.shape)
        unique(b, 12)
        if rng.integers(3) == 0:
            unique(draw((n,) + tail, big=4), int(rng.integers(2, 8)))
    # many elements, many clusters
    for n, m in ((16, 3), (140, 140), (300, 60), (70, 66)) + (() if q else ((600, 300), (260, 260))):
        pool = np.stack([np.arange(m) % 25 - 12, np.arange(m) // 25 - 12], axis=1)[rng.permutation(m)]
        ind = rng.permutation(np.concatenate([np.arange(m), rng.permutation(np.repeat(np.arange(m), 7))[:n - m]]))  # at most 8 of each
        a = pool[ind].astype([int, float][int(rng.integers(2))])
        unique(a, 1)
        unique(ind - m // 2, 1)
        unique(20 * a + rng.integers(0, 2, size=a.shape), 12)
    # long maps
    for n in (17, 64, 130):
        vmap("affine", [draw((n, 2))], [0], 0)
        vmap("sub", [draw((2, n)), draw((n, 2))], [1, 0], 1)
        vmap("sum", [draw((3, n))], [-1], 0)
        vmap("pair", [draw((n,)), draw(())], [0, None], -1, plain=False)
    # larger blocks
    for n, m in ((11, 3), (6, 13), (17, 17)):
        a, b = draw((n, m)), draw((m, n))
        emit("kron", f"{n}x{m}", ["many"], [a[:, :3], b[:3]], lambda cp: {"args": [arr(a) for a in cp], "out": arr(util.kron(*cp))})
        emit("dsum", f"{n}x{m}", ["many"], [a, b], lambda cp: {"args": [arr(a) for a in cp], "out": arr(util.direct_sum(*cp))})
        emit("dsum", f"12:{n}x{m}", ["many"], [a[:2, :2]] * 6 + [b[:1, :3]] * 6, lambda cp: {"args": [arr(a) for a in cp], "out": arr(util.direct_sum(*cp))})
        emit("blocks", f"{n}x{m}", ["leading", "many"], [a[None], b[None]], lambda cp: {"args": [arr(a) for a in cp], "out": arr(util.block_diagonal(list(cp)))})
        s, t = draw((n, n)), draw((n, n))
        emit("comm", f"{n}", [], [s, t], lambda cp: {"args": [arr(x) for x in cp], "out": arr(util.commutator(*cp))})
    for _ in range(40 if q else 300):
        n = int(rng.integers(1, 6))
        val = draw((int(rng.integers(1, 4)),), big=2)[rng.integers(0, 1, size=n)] + 5 * rng.integers(0, 3, size=n)
        vec = draw((n, n))

        def build(cp):
            n = len(cp[0])
            sp = eigenspaces(cp[0] + 1e-9 * np.arange(n), cp[1]) if n % 2 else eigenspaces(cp[0] * 1.0, cp[1], epsilon=0.5)
            return {"val": arr(cp[0]), "vec": arr(cp[1]), "tol2": 1, "spaces": [arr(s) for _, s in sp]}
        emit("eig", f"{n}", [], [val, vec], lambda cp, build=build: build(cp))
    return [js[i] for i in rng.permutation(len(js))]
