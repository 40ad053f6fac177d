"""Observation of tabulated irreps (IrrepTrace: C01, C02)."""
import itertools
import numpy as np
import hl


def sun_labels(N, smax, dmax):
    out = []
    for S in itertools.product(range(smax, -1, -1), repeat=N - 1):
        S = S + (0,)
        if all(a >= b for a, b in zip(S, S[1:])):
            d = 1.0
            for i in range(N):
                for j in range(i + 1, N):
                    d *= (S[i] - S[j] + j - i) / (j - i)
            if round(d) <= dmax:
                out.append((round(d), list(S)))
    return [S for _, S in sorted(out)]


def labels(tier):
    q = tier == "quick"
    L = []
    L += [["SU2", j] for j in range(0, 25 if q else 41)]
    L += [["SO3", l] for l in range(0, 11 if q else 17)]
    L += [["O3", l, p] for l in range(0, 8 if q else 13) for p in (1, -1)]
    L += [["SU2Real", t] for t in range(0, 14 if q else 21)]
    L += [["SL2C", a, b] for a in range(0, 8) for b in range(0, 8) if (a + 1) * (b + 1) <= (24 if q else 48)]
    L += [["SO13", a, b] for a in range(0, 8) for b in range(0, 8) if (a + b) % 2 == 0 and (a + 1) * (b + 1) <= (21 if q else 36)]
    L += [["SO13", a, a] for a in ((5,) if q else (5, 6))]
    L += [["Z2", 1], ["Z2", -1]]
    L += [["SUN", [0]]]
    L += [["SUN", S] for S in sun_labels(2, 10 if q else 16, 99)]
    L += [["SUN", S] for S in sun_labels(3, 4 if q else 6, 27 if q else 48)]
    L += [["SUN", S] for S in sun_labels(4, 3 if q else 4, 20 if q else 50)]
    L += [["SUN", S] for S in sun_labels(5, 2 if q else 3, 15 if q else 40)]
    L += [["SUN", S] for S in sun_labels(6, 1 if q else 2, 20 if q else 21)]
    return L


TRIV = {"SU2": ["SU2", 0], "SO3": ["SO3", 0], "O3": ["O3", 0, 1], "SU2Real": ["SU2Real", 0], "SL2C": ["SL2C", 0, 0],
        "SO13": ["SO13", 0, 0], "Z2": ["Z2", 1]}


def trivial(label):
    return ["SUN", [0] * len(label[1])] if label[0] == "SUN" else TRIV[label[0]]


def jobs(prop, tier, seed, out):
    rng = np.random.default_rng(seed)
    L = labels(tier)
    rng.shuffle(L)
    L.sort(key=lambda l: 1)
    res = []

    def job(label):
        def f(T):
            hdr = T.__dict__.setdefault("hdr", {})
            g = hl.lab_str([label[0], len(label[1])]) if label[0] == "SUN" else label[0]

            def ev(lab):
                sub = bool(hash(str(lab)) % 2) if False else (sum(lab[1]) % 2 == 0 if lab[0] == "SUN" else True)

                def build():
                    r = hl.make(lab, sub)
                    X, H = r.continuous_generators(), r.discrete_generators()
                    return {"label": lab, "hdr": hdr[g], "rep": hl.rep(r), "dim": int(r.dim),
                            "real": hl.is_real_array(X) and hl.is_real_array(H)}

                T.emit("irrep", "irrep:" + hl.lab_str(lab), [lab[0]], build)

            if g not in hdr:
                hdr[g] = T.n + 1
                ev(trivial(label))
                if trivial(label) == label:
                    return
            ev(label)

        return f

    return [job(l) for l in L]
