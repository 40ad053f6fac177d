"""Observation of the permutation utilities (PermTrace: C20)."""
import itertools
import random

import numpy as np

import hl
from drv_rat import big as big_int


def jobs(prop, tier, seed, out):
    from lie_nn._src.discrete_groups import perm
    from lie_nn._src import util

    rng = np.random.default_rng(seed)
    q = tier == "quick"
    js = []

    def rp(n):
        return tuple(int(x) for x in rng.permutation(n))

    def one(p, tags):
        def build():
            ev = {"p": list(p), "isperm": bool(perm.is_perm(p))}
            n = len(p)
            if sorted(p) == list(range(n)):
                k = perm.to_int(p)
                ev.update(inverse=list(perm.inverse(p)), identity=list(perm.identity(n)), sign=int(perm.sign(p)), usign=int(util.permutation_sign(p)),
                          cycles=[list(c) for c in sorted(perm.to_cycles(p))], toint=int(k) if n <= 12 else 0, back=list(perm.from_int(k, n)))
            return ev

        js.append(lambda T: T.emit("one", "one:" + str(p), tags, build))

    for n in range(0, 6 if q else 7):
        for p in itertools.permutations(range(n)):
            one(p, ["one", f"n{n}"])
    for n in (6, 7, 8) if q else (7, 8, 8, 9, 9):
        for _ in range(60 if q else 200):
            one(rp(n), ["one", f"n{n}"])
    for n in (1, 2, 3):
        for p in itertools.product(range(-1, n + 1), repeat=n):
            if sorted(p) != list(range(n)):
                one(p, ["one", "notperm"])

    def row(p, qs):
        n = len(p)

        def build():
            rs = [perm.compose(p, x) for x in qs]
            return {"p": list(p), "qs": [list(x) for x in qs], "rs": [list(x) for x in rs], "signs": [int(perm.sign(x)) for x in rs]}

        js.append(lambda T: T.emit("row", "row:" + str(p), ["row", f"n{n}"], build))

    for n in range(0, 6):
        full = list(itertools.permutations(range(n)))
        for p in full:
            row(p, full)
    for n in (6, 7, 8):
        for _ in range(20 if q else 150):
            row(rp(n), [rp(n) for _ in range(30)])

    def numbers(n):
        def build():
            import math

            f = math.factorial(n)
            ps = [perm.from_int(i, n) for i in range(f)]
            random.seed(seed)
            return {"n": n, "perms": [list(p) for p in ps], "ints": [int(perm.to_int(p)) for p in ps], "group": [list(p) for p in sorted(perm.group(n))],
                    "rand": [list(perm.rand(n)) for _ in range(40)]}

        js.append(lambda T: T.emit("numbers", f"numbers:{n}", ["numbers", f"n{n}"], build))

    for n in range(0, 6 if q else 7):
        numbers(n)

    def big(n, k):
        import math

        f = math.factorial(n)
        ints = sorted({0, 1, f - 1, f // 2} | {int(rng.integers(1 << 62)) * int(rng.integers(1 << 62)) * int(rng.integers(1 << 62)) % f for _ in range(k)})
        coded = [rp(n) for _ in range(k)] + [tuple(range(n - 1, -1, -1))]

        def build():
            ps = [perm.from_int(i, n) for i in ints]
            codes = [int(perm.to_int(p)) for p in coded]
            return {"n": n, "ints": [big_int(i) for i in ints], "perms": [list(p) for p in ps], "back": [big_int(int(perm.to_int(p))) for p in ps],
                    "coded": [list(p) for p in coded], "codes": [big_int(c) for c in codes], "decoded": [list(perm.from_int(c, n)) for c in codes]}

        js.append(lambda T: T.emit("big", f"big:{n}", ["big"], build))

    for n in (10, 13, 17, 19, 21, 26, 35) if q else range(9, 50):
        big(n, 10)

    for n in (9, 12, 16, 20, 24) if q else range(9, 40):
        for _ in range(4):
            one(rp(n), ["one"])
        one(tuple((i + 1) % n for i in range(n)), ["one"])
    # long cycles and products of permutations of many elements
    for n in (15, 21, 33, 64) if q else (12, 15, 18, 21, 25, 33, 40, 64, 65, 100):
        row(rp(n), [rp(n) for _ in range(8)])
        row(tuple((i + 1) % n for i in range(n)), [tuple((i + j) % n for i in range(n)) for j in range(6)])

    def generate(S):
        S = set(S)

        def build():
            arg = set(S)
            got = perm.germinate(arg)
            return {"gens": [list(p) for p in sorted(S)], "got": [list(p) for p in sorted(got)], "isgroup": bool(perm.is_group(got)), "untouched": arg == S}

        js.append(lambda T: T.emit("generate", "generate:" + str(sorted(S)), ["generate", f"n{len(next(iter(S)))}"], build))

    for n in (1, 2, 3):
        full = list(itertools.permutations(range(n)))
        for k in range(1, len(full) + 1):
            for S in itertools.combinations(full, k):
                generate(S)
    for n, cnt in ((4, 60), (5, 30), (6, 6 if q else 20)):
        for _ in range(cnt if q else 4 * cnt):
            S = {rp(n) for _ in range(int(rng.integers(1, 4)))}
            if n == 6 and len(S) > 1:
                # keep the group small: move few points
                S = {tuple(int(x) for x in np.concatenate([rng.permutation(3), 3 + rng.permutation(3)])) for _ in range(2)}
            generate(S)

    def isgroup(S):
        S = set(S)

        def build():
            return {"set": [list(p) for p in sorted(S)], "got": bool(perm.is_group(S))}

        # the tag is the harness' expectation and only documents coverage
        closed = bool(S) and all(tuple(a[i] for i in b) in S for a in S for b in S)
        js.append(lambda T: T.emit("isgroup", "isgroup:" + str(sorted(S))[:300], ["isgroup", "group" if closed else "notgroup"], build))

    isgroup([])
    for n in (1, 2, 3):
        full = list(itertools.permutations(range(n)))
        for k in range(1, len(full) + 1):
            for S in itertools.combinations(full, k):
                isgroup(S)
    for n in (4, 5):
        for _ in range(60 if q else 250):
            G = perm_closure({rp(n) for _ in range(int(rng.integers(1, 3)))})
            if len(G) > 30:
                continue
            isgroup(G)
            L = sorted(G)
            i = int(rng.integers(len(L)))
            isgroup(set(L[:i] + L[i + 1:]))  # one element missing
            x = rp(n)
            isgroup(G | {x})
            isgroup({tuple(x[j] for j in p) for p in G})  # a coset
    return [js[i] for i in rng.permutation(len(js))]


def perm_closure(S):
    S = set(S)
    while True:
        T = S | {tuple(a[i] for i in b) for a in S for b in S}
        if T == S:
            return S
        S = T
