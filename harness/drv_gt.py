"""Observation of the pattern basis of SU(N) (GTTrace: C26)."""
import itertools

import numpy as np

import hl
from drv_root import limbs


def jobs(prop, tier, seed, out):
    from lie_nn._src.irreps import sun

    rng = np.random.default_rng(seed)
    q = tier == "quick"
    js = []

    def lst(M):
        return [[int(x) for x in r] for r in M]

    def patterns(S):
        def build():
            L = list(sun.S_to_Ms(S))
            return {"S": list(S), "list": [lst(M) for M in L], "dim": int(sun.dim(S)), "byindex": [lst(sun.index_to_M(S, i)) for i in range(len(L))],
                    "index": [int(sun.M_to_index(M)) for M in L], "pw": [[int(x) for x in sun.M_to_p_weight(M)] for M in L],
                    "zw2": [[int(round(2 * x)) if 2 * x == round(2 * x) else 99999 for x in sun.M_to_z_weight(M)] for M in L], "valid": [bool(sun.is_valid_M(M)) for M in L],
                    "rows": [list(map(int, r)) for r in sun.S_to_Ss(S)]}
        mult = len(S) > 2 and len({tuple(sun.M_to_p_weight(M)) for M in sun.S_to_Ms(S)}) < sun.dim(S)
        js.append(lambda T: T.emit("patterns", f"patterns:{S}", ["patterns", f"N{len(S)}"] + (["shifted"] if S[-1] else []) + (["degenerate"] if mult else []), build))

    def labels(n, top):
        return [S for S in itertools.product(range(top, -1, -1), repeat=n) if all(a >= b for a, b in zip(S, S[1:]))]

    lim = 150 if q else 600
    for n, top in ((1, 4), (2, 6), (3, 4), (4, 3), (5, 2), (6, 1)) if q else ((1, 9), (2, 12), (3, 7), (4, 4), (5, 3), (6, 2), (7, 1)):
        for S in labels(n, top):
            if sun.dim(S) <= lim:
                patterns(S)

    def valid(M):
        def build():
            return {"M": lst(M), "val": bool(sun.is_valid_M(M))}
        ok = all(M[i][j] >= M[i + 1][j] >= M[i][j + 1] for i in range(len(M) - 1) for j in range(len(M) - 1 - i))
        js.append(lambda T: T.emit("valid", f"valid:{M}", ["valid"] + ([] if ok else ["notvalid"]), build))

    for n in (2, 3, 4, 5):
        for _ in range(120 if q else 800):
            M = [sorted((int(x) for x in rng.integers(0, 4, size=n)), reverse=True)]
            while len(M[-1]) > 1:
                r = M[-1]
                M.append([int(rng.integers(b, a + 1)) for a, b in zip(r, r[1:])])
            if rng.integers(3):
                i = int(rng.integers(n))
                j = int(rng.integers(len(M[i])))
                M[i][j] += int(rng.choice([-1, 1]))
            valid(tuple(map(tuple, M)))

    serre = 20 if q else 40

    def ladders(S):
        def build():
            up, dn, z = (np.asarray(f(S)) for f in (sun.upper_ladder_matrices, sun.lower_ladder_matrices, sun.Jz_matrices))
            return {"S": list(S), "serre": serre, "shape": list(up.shape) if up.shape == dn.shape == z.shape else [0], "list": [lst(M) for M in sun.S_to_Ms(S)], "up": hl.mats(up), "down": hl.mats(dn), "z": hl.mats(z)}
        js.append(lambda T: T.emit("ladders", f"ladders:{S}", ["ladders", f"ladders{len(S)}"] + (["serre"] if sun.dim(S) <= serre and len(S) > 2 else []), build))

    for n, top, big in ((1, 2, 3), (2, 7, 8), (3, 4, 27), (4, 2, 20), (5, 1, 10), (6, 1, 20)) if q else ((1, 2, 3), (2, 10, 11), (3, 6, 60), (4, 3, 64), (5, 2, 50), (6, 1, 20)):
        for S in labels(n, top):
            if sun.dim(S) <= big and (S[-1] in (0, 1)):
                ladders(S)
    if q:
        for S in [(2, 1, 1, 1, 0), (2, 1, 1, 0, 0)]:
            ladders(S)

    def dim(S):
        js.append(lambda T: T.emit("dim", f"dim:{S}", ["dim"], lambda: {"S": list(S), "dim": limbs(sun.dim(S))}))

    for n in range(2, 8):
        for _ in range(15 if q else 100):
            dim(tuple(sorted((int(x) for x in rng.integers(0, 40, size=n)), reverse=True)))
    return [js[i] for i in rng.permutation(len(js))]
