"""Histories of calls (PurityTrace: C27): arguments, earlier results and repetitions.

The behaviours come from PurityGen.tla.  The same history is also replayed backwards in a
fresh process (nothing was called there before), whose outcomes must be those of this one.
"""
import copy
import glob
import json
import os
import subprocess
import sys

import numpy as np

import hl
from drv_session import alg_matrix, dig, kind_of, listing, load, matrix


def rng_of(*key):
    return np.random.default_rng([abs(hash_int(str(k))) for k in key])


def hash_int(s):
    import hashlib

    return int(hashlib.sha256(s.encode()).hexdigest()[:8], 16)


def base_array(kind, seed, v):
    """the array values; variants differ in dtype and memory layout"""
    rng = rng_of(kind, seed, v)
    dt = [float, complex, np.float64, float][v % 4]

    def q(n, m, lo=-3, hi=4):
        a = rng.integers(lo, hi, size=(n, m)) / 2.0
        if dt is complex:
            a = a + 1j * rng.integers(lo, hi, size=(n, m)) / 2.0
        return a
    e3 = np.zeros((3, 3, 3))
    for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        e3[i, j, k], e3[i, k, j] = 1.0, -1.0
    O = hl.orthogonal(rng, 3)
    if kind in ("wide", "wide2"):
        a = q(3, 6)
        a[2] = a[0] + a[1] if kind == "wide2" else a[2]
    elif kind == "tall":
        a = q(6, 3)
    elif kind == "sq":
        a = rng.integers(-3, 4, size=(4, 4)) / 2.0
    elif kind == "sqc":
        a = rng.integers(-3, 4, size=(3, 3)) / 2.0 + 0.5j * rng.integers(-3, 4, size=(3, 3))
    elif kind in ("noisy", "noisyc"):  # entries that a tidying function is tempted to clean
        tiny = np.array([1e-9, -1e-10, 1e-12, -3e-14, 1e-16, -0.0])
        a = rng.integers(-3, 4, size=(4, 4)) / 2.0
        a = np.where(rng.integers(0, 2, size=(4, 4)) == 1, a + rng.choice(tiny, (4, 4)), np.where(a == 0, rng.choice(tiny, (4, 4)), a))
        if kind == "noisyc":
            a = a + 1j * np.where(rng.integers(0, 3, size=(4, 4)) > 0, rng.choice(tiny, (4, 4)), 0.5)
    elif kind == "noisyg":
        a = np.einsum("ij,ajk,lk->ail", O, e3, O)
        a = a + np.where(rng.integers(0, 2, size=a.shape) == 1, 2e-14, -1e-15)
    elif kind == "ratios":
        a = rng.integers(1, 5000, size=(2, 9)) * rng.integers(1, 60, size=(2, 9))
        return a
    elif kind == "sym":
        a = rng.integers(0, 3, size=(4, 4)).astype(float)
        a = a + a.T
    elif kind == "gens":
        a = e3
    elif kind == "gens2":
        a = np.einsum("ij,ajk,lk->ail", O, e3, O)
    elif kind == "table":
        a = np.add.outer(np.arange(4), np.arange(4)) % 4
    elif kind == "perm":
        return tuple(int(x) for x in rng.permutation(5))
    elif kind == "values":
        a = np.round(rng.normal(size=7), 3)[rng.integers(0, 4, size=9)] + 1e-9 * rng.normal(size=9)
    elif kind == "many":
        a = rng.integers(-4, 5, size=(2, 3, 4)) / 4.0
    elif kind == "blocks":
        a = np.zeros((3, 5, 5))
        a[:, :3, :3] = e3
        s = np.array([[[0, 1j], [1j, 0]], [[0, 1], [-1, 0]], [[1j, 0], [0, -1j]]]) * 0.5
        a = a.astype(complex)
        a[:, 3:, 3:] = s
    if v % 2 and a.ndim >= 2:  # another memory layout
        a = np.asfortranarray(a)
    return a


def val_dig(x):
    if isinstance(x, (np.ndarray, tuple)):
        return hl.sha(x)
    return dig(x)


def flat(x):
    """outcome -> (list of matrices, text)"""
    if x is None:
        return [], "None"
    if isinstance(x, np.ndarray):
        a = np.asarray(x)
        if a.size == 0 or a.ndim == 0:
            return [hl.mat(a.reshape(1, -1))], str(a.shape)
        return [hl.mat(a.reshape(-1, a.shape[-1]))], f"{a.shape}{a.dtype.kind == 'c'}"
    if isinstance(x, (bool, int, str, np.integer, np.bool_)):
        return [], str(x)
    if isinstance(x, (float, complex, np.floating)):
        return [hl.mat(np.array([[x]]))], ""
    if isinstance(x, (list, tuple)):
        ms, t = [], type(x).__name__ + "("
        for y in x:
            m, s = flat(y)
            ms += m
            t += s + ","
        return ms, t + ")"
    if hasattr(x, "continuous_generators"):
        k = kind_of(x)
        ms, t = flat([np.asarray(x.algebra()), np.asarray(x.X), np.asarray(x.H)])
        t = k + t
        if k != "gen":
            t += json.dumps(listing(x))
            Q = getattr(x, "Q", None) if k == "red" else None
            if Q is not None:
                ms += flat(np.asarray(Q))[0]
        return ms, t
    if hasattr(x, "irreps") and hasattr(x, "list"):
        ms, t = flat([None if y is None else np.asarray(y) for y in x.list])
        return ms, t + ";".join(f"{m}:{repr(r) if kind_of(r) == 'irrep' else kind_of(r)}" for m, r in x.irreps)
    return [], repr(x)


def arrays_of(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)):
        return [a for y in x for a in arrays_of(y)]
    if hasattr(x, "irreps") and hasattr(x, "list"):
        return [a for y in x.list if y is not None for a in arrays_of(y)]
    return []


def state_of(x):
    """digest of a result that was handed out"""
    if isinstance(x, (list, tuple)):
        return hl.sha([state_of(y) for y in x])
    if isinstance(x, np.ndarray) or x is None or isinstance(x, (int, float, complex, str, bool, np.generic)):
        return hl.sha(x)
    if hasattr(x, "continuous_generators"):
        return dig(x)
    if hasattr(x, "irreps") and hasattr(x, "list"):
        return hl.sha([state_of(list(x.list)), str([(m, repr(r)) for m, r in x.irreps])])
    return hl.sha(repr(x))


class Bag:
    """an outcome without an order or a basis (reduce and decompose draw at random)"""

    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return self.text


def perform(op, args, extra, key, lists):
    """the call itself; `lists` receives the digests of list arguments before and after"""
    import lie_nn as lie
    from lie_nn._src import util as u

    rng = rng_of(key)
    a = args[0] if args else None
    b = args[1] if len(args) > 1 else None

    def withlist(f, xs):
        before = [id(x) for x in xs]
        r = f(xs)
        lists[0], lists[1] = hl.sha(before), hl.sha([id(x) for x in xs])
        return r
    if op == "tp":
        return lie.tensor_product(a, b)
    if op == "tpow":
        return lie.tensor_power(a, extra[0])
    if op == "dsum":
        return lie.direct_sum(a, b)
    if op == "mul":
        return lie.MulIrrep(mul=2, rep=a)
    if op == "red":
        return withlist(lambda xs: lie.ReducedRep.from_irreps(xs), [a, b])
    if op == "redq":
        return withlist(lambda xs: lie.ReducedRep.from_irreps(xs, matrix(rng, "gen", a.dim + b.dim)), [a, b])
    if op == "cb":
        Q = matrix(rng, "cplx", a.dim)
        keep = Q.copy()
        r = lie.change_basis(a, Q)
        lists[0], lists[1] = hl.sha(keep), hl.sha(Q)
        return r
    if op == "ca":
        Q = alg_matrix(rng, "gen", np.asarray(a.algebra()))
        keep = Q.copy()
        r = lie.change_algebra(a, Q)
        lists[0], lists[1] = hl.sha(keep), hl.sha(Q)
        return r
    if op == "conj":
        return lie.conjugate(a)
    if op == "gp":
        return lie.group_product(a, b)
    if op == "triv":
        return a.create_trivial()
    if op in ("gen", "fromrep"):
        return lie.GenericRep.from_rep(a)
    if op == "isunit":
        return bool(lie.is_unitary(a))
    if op == "istriv":
        return bool(a.is_trivial())
    if op == "irred":
        return bool(lie.is_irreducible(a))
    if op == "isreal":
        return bool(lie.is_real(a))
    if op == "mkreal":
        return lie.make_explicitly_real(a)
    if op == "reduce":
        r = lie.reduce(a)
        return Bag(str(sorted((int(p.mul), int(p.rep.dim)) for p in r.irreps)))
    if op == "read":
        return [np.asarray(a.algebra()), np.asarray(a.continuous_generators()), np.asarray(a.discrete_generators())]
    if op == "exp":
        t = rng.integers(-64, 65, size=a.lie_dim) / 128.0
        k = rng.integers(0, 3, size=len(a.H))
        keep = (t.copy(), k.copy())
        r = a.exp_map(t, k)
        lists[0], lists[1] = hl.sha(keep), hl.sha((t, k))
        return r
    if op == "text":
        return repr(a)
    if op == "cg":
        return lie.clebsch_gordan(a, b, args[2])
    if op == "cgtp":  # the couplings behind a product of two irreps
        return [lie.clebsch_gordan(a, b, r) for r in a * b]
    if op == "infer":
        return lie.infer_change_of_basis(a, b)
    if op == "check":
        try:
            a.check_algebra_vs_generators()
            return "valid"
        except AssertionError:
            return "invalid"
    if op == "rtp":
        return lie.reduced_tensor_product_basis(extra[0], **{x: a for x in extra[0].split("=")[0]})
    if op == "rstp":
        return lie.reduced_symmetric_tensor_product_basis(a, extra[0])
    if op == "rtplist":
        return withlist(lambda xs: lie.reduced_tensor_product_basis(xs), [a, b])
    # arrays
    if op == "nullspace":
        return u.nullspace(a)
    if op == "gram":
        return u.gram_schmidt(a)
    if op == "extend":
        return u.extend_basis(u.gram_schmidt(a))
    if op == "extendE":
        return u.extend_basis(u.gram_schmidt(a), returns="E")
    if op == "seqnull":
        return withlist(lambda xs: u.sequential_nullspace(xs, 6), [a, b])
    if op == "intersect":
        return list(u.basis_intersection(a, b))
    if op == "inferalg":
        return u.infer_algebra_from_generators(a)
    if op == "checkalg":
        A = u.infer_algebra_from_generators(a)
        return bool(u.check_algebra_vs_generators(A, a, assert_=False))
    if op == "round":
        return u.round_to_sqrt_rational(a)
    if op == "roundsym":
        return str([u.round_to_sqrt_rational_sympy(x / 2, 64) for x in a[0]])
    if op == "ratio":
        return [np.asarray(x).astype(float) / 2.0**53 for x in u.as_approx_integer_ratio(np.where(np.abs(a.real) < 1e-14, 0.0, a.real))] if a.dtype.kind == "c" else \
               [np.asarray(x).astype(float) / 2.0**53 for x in u.as_approx_integer_ratio(a)]
    if op == "norm":
        return [np.asarray(x) / 8192.0 for x in u.normalize_integer_ratio(a[0], a[1])]
    if op == "limit":
        n, d = u.normalize_integer_ratio(a[0], a[1])
        keep = (n.copy(), d.copy())
        r = u.limit_denominator(n, d, 100)
        lists[0], lists[1] = hl.sha(keep), hl.sha((n, d))
        return [np.asarray(x) / 8192.0 for x in r]
    if op == "vmap":
        return u.vmap(lambda x: x + 1.0, in_axes=0, out_axes=-1)(a)
    if op == "kron":
        return u.kron(a, b)
    if op == "adsum":
        return u.direct_sum(a, b)
    if op == "bdiag":
        return withlist(lambda xs: u.block_diagonal(xs), [a[None], b[None]])
    if op == "comm":
        n = min(a.shape[0], b.shape[0])
        return u.commutator(a[:n, :n], b[:n, :n])
    if op == "unique":
        return list(u.unique_with_tol(a, tol=1e-5))
    if op == "eigen":
        w, v = np.linalg.eigh(a)
        r = u.eigenspaces(w, v)
        return [(complex(x), np.asarray(W) @ np.conj(np.asarray(W)).T) for x, W in r]
    if op == "psign":
        return int(u.permutation_sign(a))
    if op == "decompose":
        return Bag(str(sorted(int(y.shape[1]) for y in u.decompose_rep_into_irreps(a))))
    if op == "airred":
        return bool(u.is_irreducible(a))
    if op == "regular":
        return u.regular_representation(a)
    if op == "icob":
        return u.infer_change_of_basis(a, b)
    if op == "matpow":
        import jax.numpy as jnp
        from lie_nn._src import jax_utils

        return np.asarray(jax_utils.matrix_power(jnp.asarray(a), 3))
    raise ValueError(op)


def build_base(b, seed):
    import lie_nn as lie

    if b["group"] == "arrays":
        return [base_array(k, seed, b["variant"]) for k in b["base"]]
    store = []
    for n, a in enumerate(b["base"]):
        rng = rng_of(b["group"], b["variant"], seed, n)
        op = a["op"]
        if op == "load":
            r = load(a["label"])
        elif op == "mul":
            r = lie.MulIrrep(mul=a["m"], rep=store[a["i"] - 1])
        elif op == "red":
            ps = [store[i - 1] for i in a["ids"]]
            r = lie.ReducedRep.from_irreps(ps, None if a["q"] == "none" else matrix(rng, a["q"], sum(p.dim for p in ps)))
        elif op == "gen":
            g = lie.GenericRep.from_rep(store[a["i"] - 1])
            r = lie.GenericRep(np.array(g.A), np.array(g.X), np.array(g.H))
        elif op == "cb":
            r = lie.change_basis(store[a["i"] - 1], matrix(rng, a["q"], store[a["i"] - 1].dim))
        else:
            raise ValueError(op)
        store.append(r)
    return store


def split(c):
    """arguments of a call: value numbers first, then parameters"""
    n = {"tpow": 1, "rtp": 1, "rstp": 1}.get(c["op"], len(c["args"]))
    return c["args"][:n], c["args"][n:]


def outcome(b, seed, cid, vals, clone=False):
    """perform call number cid; returns (result, fields)"""
    c = b["calls"][cid - 1]
    ids, extra = split(c)
    args = [vals[i - 1] for i in ids]
    if clone:
        args = copy.deepcopy(args)
    lists = ["", ""]
    try:
        r = perform(c["op"], args, extra, [b["group"], b["variant"], seed, cid, c["op"]], lists)
        ms, t = flat(r)
    except hl.Hang:
        raise
    except Exception as e:  # a refusal is an outcome too
        r, ms, t = None, [], "!" + type(e).__name__
    return r, {"cid": cid, "res": ms, "text": t, "after": [[i, val_dig(vals[i - 1])] for i in sorted(set(ids))], "lists": lists}


def history(T, b, seed):
    name = f"{b['group']}.{b['variant']}.{b['num']}"
    fresh = None
    if b["fresh"]:
        p = subprocess.run([sys.executable, os.path.abspath(__file__), str(seed)], input=json.dumps(b), capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=os.path.dirname(os.path.abspath(__file__)), PYTHONHASHSEED=str(1 + (seed + b["num"]) % 97)))
        fresh = json.loads(p.stdout.split("@@FRESH", 1)[1]) if "@@FRESH" in p.stdout else None
        if fresh is None:
            T.emit("fresh", name + ":fresh", [], lambda: (_ for _ in ()).throw(RuntimeError("fresh process: " + p.stderr[-300:])))
    vals = []

    def begin():
        vals.extend(build_base(b, seed))
        return {"vals": [val_dig(x) for x in vals]}
    if T.emit("begin", name, [], begin)["exc"]:
        return
    results = {}
    for n, s in enumerate(b["plan"]):
        do, cid = s["do"], s["cid"]
        key = f"{name}:{n + 1}:{do}:{cid}"
        if cid:
            key += ":" + b["calls"][cid - 1]["op"] + ":" + ",".join(map(str, b["calls"][cid - 1]["args"]))
        if do == "call":
            def build():
                r, f = outcome(b, seed, cid, vals)
                f["dig"] = state_of(r)
                results[cid] = r
                return f
            T.emit("call", key, ["call:" + b["calls"][cid - 1]["op"]], build)
        elif do in ("again", "copy"):
            T.emit(do, key, [do], lambda: outcome(b, seed, cid, vals, do == "copy")[1])
        elif do == "scribble":
            def build():
                r = results.get(cid)
                held = [a for v in vals for a in (arrays_of(v) or [getattr(v, x) for x in ("_A", "_X", "_H", "Q") if isinstance(getattr(v, x, None), np.ndarray)])]
                for v in vals:  # arrays inside structured values
                    for q in getattr(v, "irreps", []):
                        held += [getattr(q.rep, x) for x in ("_A", "_X", "_H") if isinstance(getattr(q.rep, x, None), np.ndarray)]
                    if hasattr(v, "rep") and hasattr(v.rep, "_A"):
                        held += [v.rep._A, v.rep._X, v.rep._H]
                k = 0
                for a in arrays_of(r):
                    if a.flags.writeable and a.size and a.dtype.kind in "fc" and not any(np.shares_memory(a, h) for h in held):
                        a *= 0.5
                        a += 7.0
                        k += 1
                return {"cid": cid, "arrays": k}
            T.emit("scribble", key, ["scribble"], build)
        else:
            T.emit("sweep", key, ["sweep"], lambda: {"vals": [val_dig(x) for x in vals], "results": [[c, state_of(r)] for c, r in sorted(results.items())]})
    if fresh:
        for f in fresh:
            c = b["calls"][f["cid"] - 1]
            T.emit("fresh", f"{name}:fresh:{f['cid']}:{c['op']}:" + ",".join(map(str, c["args"])), ["fresh"], lambda: f)


def jobs(prop, tier, seed, out):
    js, num = [], 0
    for p in sorted(glob.glob(os.path.join(out, "*.beh"))):
        for line in open(p):
            b = json.loads(line)
            num += 1
            b["num"] = num
            b["fresh"] = os.path.basename(p).startswith("cover")
            js.append(lambda T, b=b: history(T, b, seed))
    return js


if __name__ == "__main__":
    seed = int(sys.argv[1])
    b = json.loads(sys.stdin.read())
    vals = build_base(b, seed)
    res = []
    for cid in range(len(b["calls"]), 0, -1):
        res.append(outcome(b, seed, cid, vals)[1])
    print("@@FRESH" + json.dumps(res))
