"""Observation of the rational rounding functions (RatTrace: C21)."""
import math
from fractions import Fraction

import numpy as np

import hl


def big(k):
    k = int(k)
    s, a, r = (-1 if k < 0 else 1), abs(k), []
    while a:
        r.append(a % 4096)
        a //= 4096
    return [s if r else 1, r]


def bezout(a, b):
    """u a + v b = gcd"""
    a, b = int(a), int(b)
    u0, v0, u1, v1 = 1, 0, 0, 1
    while b:
        k = a // b
        a, b, u0, v0, u1, v1 = b, a - k * b, u1, v1, u0 - k * u1, v0 - k * v1
    return (u0, v0) if a >= 0 else (-u0, -v0)


def neighbour(x, p, q, m):
    """the other end p1/q1 of the gap of fractions with denominator <= m around x that starts at p/q (untrusted)"""
    p, q, m = int(p), int(q), int(m)
    if q <= 0 or Fraction(p, q) == x:
        return 0, 1
    e = 1 if x > Fraction(p, q) else -1
    # e (p1 q - p q1) = 1, with q1 the largest one <= m
    if q == 1:
        q1 = m
    else:
        q1 = (-e * pow(p, -1, q)) % q
        q1 += (m - q1) // q * q
    if q1 <= 0:
        return 0, 1
    p1 = (p * q1 + e) // q
    return p1, q1


def exact(x):
    """float -> (mantissa, k) with x = mantissa / 2^k, k >= 0"""
    n, d = float(x).as_integer_ratio()
    return n, d.bit_length() - 1


def jobs(prop, tier, seed, out):
    from lie_nn._src import util

    rng = np.random.default_rng(seed)
    q = tier == "quick"
    js = []

    # ---- small fractions: every admissible fraction is compared
    def small(F, m, shape=None):
        def build():
            n = np.array([f.numerator for f in F])
            d = np.array([f.denominator for f in F])
            if shape is not None:
                n, d = n.reshape(shape), d.reshape(shape)
            r = util.limit_denominator(n, d, m)
            p, qq = r
            return {"n": [f.numerator for f in F], "d": [f.denominator for f in F], "p": [int(x) for x in np.ravel(p)], "q": [int(x) for x in np.ravel(qq)], "m": m,
                    "shapeok": np.shape(p) == n.shape and np.shape(qq) == n.shape}

        tags = ["small", "scalar" if shape == () else "matrix" if shape and len(shape) == 2 else "array"]
        tags += ["negative"] if any(f < 0 for f in F) else []
        tags += ["zero"] if any(f == 0 for f in F) else []
        tags += ["equal"] if any(f.denominator == m for f in F) else []
        # ties: two different fractions at the same distance
        if any(f.denominator > m and f.denominator % 2 == 0 for f in F):
            tags.append("tie")
        js.append(lambda T: T.emit("small", f"small:{m}:" + ",".join(map(str, F))[:200] + str(shape), tags, build))

    D = 30 if q else 60
    allF = sorted({Fraction(n, d) for d in range(1, D) for n in range(-2 * D, 2 * D)})
    for m in list(range(1, 16)) + ([] if q else list(range(16, 40))):
        idx = rng.permutation(len(allF))[:240 if q else 1500]
        for i in range(0, len(idx), 24):
            F = [allF[j] for j in idx[i:i + 24]]
            small(F, m, (4, 6) if len(F) == 24 and i % 48 else None)
        for j in rng.permutation(len(allF))[:10]:
            small([allF[j]], m, ())
        eq = [f for f in allF if f.denominator == m]
        small([eq[j] for j in rng.permutation(len(eq))[:10]], m)
        small([eq[rng.integers(len(eq))]], m, ())
        # half way between two Farey neighbours
        a = [f for f in allF if f.denominator <= m]
        mids = [Fraction(a[j] + a[j + 1]) / 2 for j in rng.permutation(len(a) - 1)[:12]]
        small([f for f in mids], m)

    def empty():
        def build():
            p, qq = util.limit_denominator(np.zeros((0,), int), np.ones((0,), int), 10)
            return {"n": [], "d": [], "p": [], "q": [], "m": 10, "shapeok": np.shape(p) == (0,)}

        js.append(lambda T: T.emit("small", "small:empty", ["small", "empty"], build))

    empty()

    # ---- large fractions
    def large(F, m, tag):
        def build_all():
            n = np.array([f.numerator for f in F], dtype=np.int64)
            d = np.array([f.denominator for f in F], dtype=np.int64)
            with np.errstate(all="ignore"):
                p, qq = util.limit_denominator(n, d, m)
            return p, qq

        def job(T):
            try:
                P, Q = build_all()
                err = None
            except Exception as e:
                err = e
            for i, f in enumerate(F):
                def build():
                    if err is not None:
                        raise err
                    p, c = int(P[i]), int(Q[i])
                    u, v = bezout(p, c)
                    p1, q1 = neighbour(f, p, c, m)
                    return {"n": big(f.numerator), "d": big(f.denominator), "p": big(p), "q": big(c), "m": big(m), "u": big(u), "v": big(v), "p1": big(p1), "q1": big(q1)}

                T.emit("large", f"large:{m}:{f}", ["large", tag], build)

        js.append(job)

    for _ in range(12 if q else 100):
        m = int(rng.choice([100, 1000, 4096, 12345, 1000000]))
        # the comparison of the two candidates multiplies d * q * q: keep it in 63 bits
        top = min(2 ** 40, 2 ** 61 // (m * m * 4))
        F = []
        for _ in range(10):
            d = int(2 ** rng.uniform(1, math.log2(top)))
            n = int(rng.integers(-2 * d, 2 * d))
            F.append(Fraction(n, max(d, 1)))
        F.append(Fraction(int(rng.integers(1, m)), m))
        large(F, m, "array")

    # ---- floats to ratios
    def ratio(xs, tag):
        def job(T):
            try:
                N, D_ = util.as_approx_integer_ratio(np.array(xs))
                err = None
            except Exception as e:
                err = e
            for i, x in enumerate(xs):
                def build():
                    if err is not None:
                        raise err
                    n, d = int(N[i]), int(D_[i])
                    u, v = bezout(n, d)
                    xm, k = exact(x)
                    return {"x": big(xm), "k": k, "n": big(n), "d": big(d), "u": big(u), "v": big(v)}

                T.emit("ratio", f"ratio:{x!r}", ["ratio", tag] + (["negative"] if x < 0 else []) + (["zero"] if x == 0 else []), build)

        js.append(job)

    for _ in range(15 if q else 150):
        ratio([float(s * 2.0 ** rng.uniform(-45, 45)) for s in rng.choice([-1.0, 1.0], 8)] + [0.0], "array")
        ratio([float(s * rng.uniform(0, 1)) for s in rng.choice([-1.0, 1.0], 6)], "array")
        ratio([float(x) for x in rng.integers(-1000, 1000, 8)] + [1.0, -1.0, 0.5, -0.75], "array")
        ratio([float(rng.integers(-100, 100)) / 2 ** int(rng.integers(0, 12)) for _ in range(6)], "array")

    # ---- square roots
    def part(x, y, m2, fixp=None):
        xm, xk = exact(x)
        ym, yk = exact(y)
        f = (Fraction(ym, 2 ** yk) ** 2).limit_denominator(m2)
        p, c = f.numerator, f.denominator
        u, v = bezout(p, c)
        p1, q1 = neighbour(Fraction(xm, 2 ** xk) ** 2, p, c, m2)
        z = {"xm": big(xm), "xk": xk, "ym": big(ym), "yk": yk, "p": big(p), "q": big(c), "u": big(u), "v": big(v), "p1": big(p1), "q1": big(q1), "fix": fixp is not None}
        z["fp"], z["fq"] = (big(fixp.numerator), big(fixp.denominator)) if fixp is not None else (big(0), big(1))
        return z

    def same(y, y2, m2):
        """equal; where double precision does not tell the admissible squares apart: equal to rounding"""
        for a, b in zip(y.ravel(), y2.ravel()):
            for u, v in ((np.real(a), np.real(b)), (np.imag(a), np.imag(b))):
                if u != v and (u * u * m2 * m2 < 2.0 ** 49 or abs(u - v) > 1e-12 * abs(u)):
                    return False
        return y.shape == y2.shape

    def sqrt(xs, m, fix=None):
        xs = np.asarray(xs)

        def build():
            y = util.round_to_sqrt_rational(xs.copy(), m) if m != 4096 else util.round_to_sqrt_rational(xs.copy())
            y2 = util.round_to_sqrt_rational(np.array(y), m)
            parts = []
            m2 = m * m + 1
            X, Y = np.ravel(xs), np.ravel(np.asarray(y))
            for i in range(min(X.size, Y.size)):
                fx = fix[i] if fix is not None else None
                parts.append(part(np.real(X[i]), np.real(Y[i]), m2, fx[0] if fx else None))
                if np.iscomplexobj(xs):
                    parts.append(part(np.imag(X[i]), np.imag(Y[i]), m2, fx[1] if fx else None))
            return {"m": big(m2), "parts": parts, "shapeok": np.shape(y) == xs.shape, "idem": same(np.asarray(y), np.asarray(y2), m2),
                    "realok": bool(np.iscomplexobj(xs) or not np.iscomplexobj(y))}

        sh = xs.shape
        tags = ["sqrt", "scalar" if sh == () else "array" if len(sh) == 1 else "matrix", "complex" if np.iscomplexobj(xs) else "real"]
        tags += ["empty"] if xs.size == 0 else []
        js.append(lambda T: T.emit("sqrt", f"sqrt:{m}:{sh}:{np.ravel(xs)[:3]}", tags, build))

    def rfrac(m):
        d = int(rng.integers(1, m * m + 1))
        return Fraction(int(rng.integers(0, 2 * d + 1)), d)

    for t in range(40 if q else 400):
        m = int([4096, 4096, 100, 20, 10, 5, 3, 2][rng.integers(8)])
        shape = [(), (4,), (2, 3), (1, 2, 2), (0,), (2, 0)][rng.integers(6 if t % 5 == 0 else 4)]
        size = int(np.prod(shape))
        cplx = bool(rng.integers(2))

        def values():
            fr, xs = [], []
            for _ in range(size):
                f, s = rfrac(m), int(rng.choice([-1, 1]))
                if rng.integers(5) == 0:
                    f = Fraction(0)
                if f != 0 and f < Fraction(1, 1 << 20):
                    f = Fraction(1)
                fr.append(f)
                xs.append(s * math.sqrt(f.numerator / f.denominator))
            return fr, xs

        a, xa = values()
        b, xb = values() if cplx else (None, None)
        x = np.array(xa) + (1j * np.array(xb) if cplx else 0)
        # fixed points are only resolved when x^2 in double precision still tells fractions with denominators <= m^2+1 apart
        sqrt(x.reshape(shape), m, [(a[i], b[i] if cplx else None) for i in range(size)] if m <= 4096 else None)
        g = rng.normal(size=size) * float(rng.choice([0.01, 1.0, 3.0])) + (1j * rng.normal(size=size) if cplx else 0)
        sqrt(np.array(g).reshape(shape), m)
        # perturbed exact values
        sqrt((x * (1 + 1e-13 * rng.normal(size=size))).reshape(shape), 100 if m > 100 else m)

    # complex arrays, one part of which is small everywhere
    for t in range(12 if q else 120):
        a = [int(x) for x in rng.integers(-40, 41, 4)]
        b = [int(x) for x in rng.integers(-9, 10, 4)]
        d = int([4096, 4000, 3001, 700][t % 4])
        fa = [Fraction(abs(x), 41) for x in a]
        fb = [Fraction(x * x, d * d) for x in b]
        xa = np.array([np.sign(x) * math.sqrt(f) for x, f in zip(a, fa)])
        xb = np.array([x / d for x in b])
        if t % 3 == 2:
            xb, fb = np.zeros(4), [Fraction(0)] * 4
            xb[t % 4], fb[t % 4] = 1 / d, Fraction(1, d * d)
        if t % 2:
            sqrt(xa + 1j * xb, 4096, list(zip(fa, fb)))
        else:
            sqrt((xb + 1j * xa).reshape(2, 2), 4096, list(zip(fb, fa)))

    # ---- the symbolic variant, on scalars
    def sym(x, m, fix):
        def build():
            import sympy as sp

            y = util.round_to_sqrt_rational_sympy(np.array(x), m)
            re, im = sp.expand(y).as_real_imag()
            m2 = m * m + 1

            def one(xx, yy, f):
                return part(xx, float(yy), m2, f)

            return {"m": big(m2), "parts": [one(np.real(x), re, fix[0]), one(np.imag(x), im, fix[1])], "shapeok": True, "idem": True, "realok": True}

        js.append(lambda T: T.emit("sym", f"sym:{m}:{x}", ["sym"], build))

    for t in range(20 if q else 150):
        m = int([4096, 100, 10, 3][rng.integers(4)])
        f, g = rfrac(m), (rfrac(m) if rng.integers(3) else Fraction(0))
        if f < Fraction(1, 1 << 20):
            f = Fraction(1, 2)
        if g < Fraction(1, 1 << 20):
            g = Fraction(0)
        s, r = rng.choice([-1, 1], 2)
        if t % 2:
            sym(complex(s * math.sqrt(f), r * math.sqrt(g)), m, (f, g))
        else:
            sym(complex(rng.normal(), rng.normal()), m, (None, None))
    return [js[i] for i in rng.permutation(len(js))]
