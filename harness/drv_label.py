"""Observation of label enumeration, order and parsing (LabelTrace: C06, C29)."""
import numpy as np

import hl
from drv_irrep import labels as all_labels
from drv_cg import prod_family, PROD, dim

NAMES = ["SU2", "SO3", "O3", "SL2C", "SO13", "SU2Real", "Z2", "SU2_", "SU3", "SU4"]
GROUP = {"SU2_": ["SUN", 2], "SU3": ["SUN", 3], "SU4": ["SUN", 4]}


def lab(r):
    try:
        return hl.label_of(r)
    except Exception:
        return ["?", repr(r)[:60]]


def enumerate_job(rng_seed, names, steps):
    """several iterators, interleaved"""

    def job(T):
        rng = np.random.default_rng(rng_seed)
        G = hl.groups()
        its = {}
        uid = T.n
        for i, n in enumerate(names):
            its[f"{n}#{uid}.{i}"] = dict(name=n, it=None, prev=None, left=steps[i], ended=False)
        while its:
            key = list(its)[rng.integers(len(its))]
            d = its[key]
            n = d["name"]
            g = GROUP.get(n, [n])
            tags = [g[0], "next"]

            def step():
                if d["it"] is None:
                    d["it"] = G[n].iterator()
                try:
                    r = next(d["it"])
                except StopIteration:
                    d["ended"] = True
                    raise
                p = d["prev"]
                d["prev"] = r
                return {"it": key, "g": g, "label": lab(r), "dim": int(r.dim), "up": bool(p < r) if p is not None else False, "down": bool(r < p) if p is not None else False}

            burst = int(rng.integers(1, 8))
            for _ in range(burst):
                if d["left"] and not d["ended"]:
                    d["left"] -= 1
                    # peek the end of a finite enumeration without an event
                    try:
                        f = step()
                        T.emit("next", f"next:{n}:{steps[0] - d['left']}", tags, lambda: f)
                    except StopIteration:
                        pass
                    except Exception as e:
                        msg = e

                        def again():
                            raise msg

                        T.emit("next", f"next:{n}", tags, again)
                        d["left"] = 0
                if not d["left"] or d["ended"]:
                    T.emit("done", f"done:{n}", [g[0], "done"], lambda: {"it": key, "g": g, "ended": d["ended"]})
                    del its[key]
                    break

    return job


def order_job(L):
    def job(T):
        def build():
            a = [hl.make(l) for l in L]
            b = [hl.make(l) for l in L]
            n = len(L)
            ev = {"labels": L, "lt": [[bool(a[i] < b[j]) for j in range(n)] for i in range(n)],
                  "gt": [[bool(a[i] > b[j]) for j in range(n)] for i in range(n)],
                  "eq": [[bool(a[i] == b[j]) for j in range(n)] for i in range(n)],
                  "ne": [[bool(a[i] != b[j]) for j in range(n)] for i in range(n)],
                  "hash": [[hash(a[i]) == hash(b[j]) for j in range(n)] for i in range(n)],
                  "nset": len(set(a) | set(b)), "sorted": [lab(x) for x in sorted(a)]}
            if L[0][0] == "PROD":
                ev["lt1"] = [[bool(a[i].rep1 < b[j].rep1) for j in range(n)] for i in range(n)]
                ev["lt2"] = [[bool(a[i].rep2 < b[j].rep2) for j in range(n)] for i in range(n)]
            return ev

        T.emit("order", "order:" + ";".join(hl.lab_str(l) for l in L), [L[0][0], "order"], build)

    return job


def text(l):
    t = l[0]
    if t in ("SU2", "SO3"):
        return str(l[1])
    if t == "O3":
        return f"{l[1]}{'e' if l[2] == 1 else 'o'}"
    if t == "Z2":
        return "e" if l[1] == 1 else "o"
    return "(" + ",".join(str(x) for x in (l[1] if t == "SUN" else l[1:])) + ")"


def cls_of(l):
    G = hl.groups()
    if l[0] == "SUN":
        return {2: G["SU2_"], 3: G["SU3"], 4: G["SU4"]}.get(len(l[1]), G["SUN"])
    return G[l[0]]


def parse_job(form, terms, sep):
    def job(T):
        s = sep.join((f"{m}x" if x else "") + text(l) for l, m, x in terms)

        def build():
            import lie_nn as lie

            C = cls_of(terms[0][0])
            if form == "1":
                r = C.from_string(s)
                got, dims, parts = [[lab(r), 1]], r.dim, [r]
            elif form == "mul":
                r = lie.MulIrrep.from_string(s, C)
                got, dims, parts = [[lab(r.rep), int(r.mul)]], r.dim, [r.rep]
            else:
                r = lie.ReducedRep.from_string(s, C)
                got, dims, parts = [[lab(m.rep), int(m.mul)] for m in r.irreps], r.dim, [m.rep for m in r.irreps]
            same = [i < len(parts) and bool(parts[i] == hl.make(t[0])) and type(parts[i]) is type(hl.make(t[0])) for i, t in enumerate(terms)]
            return {"terms": terms, "text": s, "sep": sep, "got": got, "dim": int(dims), "same": same}

        T.emit("parse", f"parse{form}:{terms[0][0][0]}:{s}", [terms[0][0][0], "parse" + form] + (["space"] if " " in sep else []), build)

    return job


def value_job(l):
    """copies, pickles and attempts to modify an irrep; the irrep is used (generators) before or after"""

    def job(T):
        def build():
            import copy
            import dataclasses
            import pickle

            a = hl.make(l)
            ref = hl.make(l)
            X, H = np.array(ref.X), np.array(ref.H)
            cs = [("copy", copy.copy(a)), ("deepcopy", copy.deepcopy(a))]
            cs += [(f"pickle{p}", pickle.loads(pickle.dumps(a, protocol=p))) for p in (0, 2, 5)]
            cs += [("used", pickle.loads(pickle.dumps((ref, ref.X))) [0]), ("nested", copy.deepcopy({"k": [a]})["k"][0])]
            copies = [{"how": n, "label": lab(c), "eq": bool(c == a) and bool(a == c), "hash": hash(c) == hash(a), "type": type(c) is type(a),
                       "in": c in {a} and a in {c}, "dim": int(c.dim), "X": bool(np.array_equal(np.array(c.X), X)), "H": bool(np.array_equal(np.array(c.H), H))} for n, c in cs]
            sets = []
            for f in dataclasses.fields(a):
                old = getattr(a, f.name)
                for how in ("set", "del"):
                    try:
                        setattr(a, f.name, old) if how == "set" else delattr(a, f.name)
                        sets.append({"how": how, "refused": False, "label": lab(a)})
                    except Exception:
                        sets.append({"how": how, "refused": True, "label": lab(a)})
            return {"label": l, "copies": copies, "sets": sets}

        T.emit("value", "value:" + hl.lab_str(l), [l[0], "value"], build)

    return job


def scal_job(l):
    def job(T):
        def build():
            r = hl.make(l)
            sc = "none" if not hasattr(r, "is_scalar") else ("yes" if r.is_scalar() else "no")
            return {"label": l, "scalar": sc, "trivial": bool(r.is_trivial()), "created": lab(r.create_trivial())}

        T.emit("scal", "scal:" + hl.lab_str(l), [l[0], "scal"], build)

    return job


def family(name, big):
    if name.startswith("SU") and name in GROUP:
        n = GROUP[name][1]
        return [l for l in all_labels("quick" if not big else "thorough") if l[0] == "SUN" and len(l[1]) == n]
    return [l for l in all_labels("quick" if not big else "thorough") if l[0] == name]


def triples():
    from itertools import product

    A = [["O3", l, p] for l in range(2) for p in (1, -1)]
    B = [["SUN", S] for S in ([0, 0, 0], [1, 0, 0], [1, 1, 0])]
    C = [["Z2", 1], ["Z2", -1]]
    return [["PROD", ["PROD", a, b], c] for a, b, c in product(A, B, C)]


def large(rng, n):
    """a label with entries of several digits"""
    a = sorted((int(rng.choice([rng.integers(0, 12), rng.integers(8, 14), rng.integers(9, 130 if n in ("SU2", "SO3", "O3") else 14)])) for _ in range(4)), reverse=True)
    k = int(rng.integers(2))
    if n in ("SU2", "SO3"):
        return [n, a[0]]
    if n == "O3":
        return ["O3", a[0], 2 * k - 1]
    if n in ("SL2C", "SO13"):
        l = [a[0], a[1 + int(rng.integers(3))]]
        l = l[::-1] if k else l
        return [n] + ([l[0] + (sum(l) % 2), l[1]] if n == "SO13" else l)
    if n in ("SU2_", "SU3", "SU4", "SUN5"):
        return ["SUN", [x for x in a[:{"SU2_": 1, "SU3": 2, "SU4": 3, "SUN5": 4}[n]]] + [0]]
    return None


def jobs(prop, tier, seed, out):
    rng = np.random.default_rng(seed)
    q = tier == "quick"
    js = []
    fams = {n: family(n, not q) for n in NAMES}
    fams["SUN5"] = [l for l in all_labels(tier) if l[0] == "SUN" and len(l[1]) == 5]
    prods = [prod_family(p) for p in PROD] + [triples()]
    if prop == "C29":
        for n, f in fams.items():
            if n == "SUN5":
                continue  # no public table
            js += [scal_job(l) for l in f if l[0] != "SO13" or dim(l) <= 20]
        for f in prods:
            js += [scal_job(f[i]) for i in rng.permutation(len(f))[:6 if q else 30]]
        return [js[i] for i in rng.permutation(len(js))]
    steps = {n: 64 for n in NAMES}
    steps["SU4"] = 110
    for r in range(4 if q else 20):
        for grp in range(4):
            names = [NAMES[i] for i in rng.integers(len(NAMES), size=3)]
            names.append(names[0])  # two enumerations of one group at once
            js.append(enumerate_job(int(rng.integers(1 << 30)), names, [steps[n] for n in names]))
    js.append(enumerate_job(1, NAMES, [steps[n] for n in NAMES]))
    for f in list(fams.values()) + prods:
        for r in range(6 if q else 40):
            k = int(rng.integers(3, 13))
            L = [f[i] for i in rng.integers(len(f), size=k)]
            js.append(order_job(L))
        if len(f) < 40:
            js.append(order_job(f))
    for f in list(fams.values()) + prods:
        js += [value_job(f[i]) for i in rng.permutation(len(f))[:8 if q else 60] if dim(f[i]) <= 40]
    for n in list(fams):
        ls = [large(rng, n) for _ in range(24 if q else 200)]
        if None in ls:
            continue
        js += [parse_job("1", [[l, 1, False]], "+") for l in ls]
        js += [parse_job("mul", [[l, int(m), True]], "+") for l, m in zip(ls, rng.integers(0, 30, len(ls)))]
        js += [parse_job("red", [[l, int(rng.integers(0, 13)) if x else 1, bool(x)] for l, x in zip(ls[i:i + 3], rng.integers(2, size=3))], "+") for i in range(0, len(ls), 3)]
        js += [order_job(ls[i:i + 8]) for i in range(0, len(ls), 8)]
    for n, f in fams.items():
        if n == "SU2Real":
            continue
        for l in f:
            js.append(parse_job("1", [[l, 1, False]], "+"))
        for r in range(20 if q else 120):
            l = f[rng.integers(len(f))]
            x = bool(rng.integers(3))
            js.append(parse_job("mul", [[l, int(rng.choice([0, 1, 2, 3, 10, 12, 103])) if x else 1, x]], "+"))
        for r in range(20 if q else 120):
            ts = []
            for _ in range(int(rng.integers(1, 6))):
                x = bool(rng.integers(2))
                ts.append([f[rng.integers(len(f))], int(rng.choice([0, 1, 2, 3, 11])) if x else 1, x])
            js.append(parse_job("red", ts, ["+", "+", " + ", "+ "][rng.integers(4)]))
    return [js[i] for i in rng.permutation(len(js))]
