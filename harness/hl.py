"""Harness library: observation of the implementation as events of a trace.

No property is decided here.  The harness calls the library, projects what it
returns onto integers (fixed point limbs) and writes events; the verdicts are
computed by the TLA+ trace specifications in /verif/spec.
"""
import hashlib
import faulthandler
import json
import math
import os
import signal
import sys
import warnings

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
REPO = os.environ.get("LIE_NN_REPO", "/repo")
sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

warnings.simplefilter("ignore")

SCALE = 1 << 20
JOB_LIMIT = 420  # seconds
LIMIT = 4096.0


class Hang(BaseException):
    pass


# ---------------------------------------------------------------- projection
def units(x):
    return int(round(float(x) * SCALE))


def limbs(u):
    h = (u + 1024) >> 11
    return h, u - (h << 11)


def num(z):
    z = complex(z)
    if not (math.isfinite(z.real) and math.isfinite(z.imag)) or max(abs(z.real), abs(z.imag)) > LIMIT:
        return [1 << 28, 0, 1 << 28, 0]
    return [*limbs(units(z.real)), *limbs(units(z.imag))]


def _fix(a):
    """array -> (ok, re units, im units) as int64 arrays"""
    a = np.asarray(a)
    if a.dtype == object:
        a = a.astype(np.complex128)
    re = np.real(a).astype(np.float64)
    im = np.imag(a).astype(np.float64)
    ok = bool(np.all(np.isfinite(re)) and np.all(np.isfinite(im)))
    if ok and a.size:
        ok = bool(max(np.abs(re).max(), np.abs(im).max()) <= LIMIT)
    if not ok:
        re = np.zeros_like(re)
        im = np.zeros_like(im)
    return ok, np.rint(re * SCALE).astype(np.int64), np.rint(im * SCALE).astype(np.int64)


def _limbs(u):
    h = (u + 1024) >> 11
    return h, u - (h << 11)


def mat(a):
    """2d array -> sparse log matrix"""
    a = np.asarray(a)
    if a.ndim != 2:
        return {"n": -1, "m": -1, "r": [], "ok": False}
    ok, re, im = _fix(a)
    rh, rl = _limbs(re)
    ih, il = _limbs(im)
    rows = []
    for i in range(a.shape[0]):
        nz = np.nonzero((re[i] != 0) | (im[i] != 0))[0]
        rows.append([[int(j) + 1, int(rh[i, j]), int(rl[i, j]), int(ih[i, j]), int(il[i, j])] for j in nz])
    return {"n": int(a.shape[0]), "m": int(a.shape[1]), "r": rows, "ok": ok}


def mats(a):
    """stack of matrices (k, n, m) -> list of log matrices; wrong rank -> one bad matrix"""
    a = np.asarray(a)
    if a.ndim != 3:
        return [{"n": -1, "m": -1, "r": [], "ok": False}]
    return [mat(x) for x in a]


def alg(A):
    """structure constants -> [n, entries [i,j,k,rh,rl,ih,il]]"""
    A = np.asarray(A)
    if A.ndim != 3 or len(set(A.shape)) > 1:
        return {"n": -1, "e": [], "ok": False}
    ok, re, im = _fix(A)
    rh, rl = _limbs(re)
    ih, il = _limbs(im)
    e = [
        [int(i) + 1, int(j) + 1, int(k) + 1, int(rh[i, j, k]), int(rl[i, j, k]), int(ih[i, j, k]), int(il[i, j, k])]
        for i, j, k in zip(*np.nonzero((re != 0) | (im != 0)))
    ]
    return {"n": int(A.shape[0]), "e": e, "ok": ok}


def is_real_array(a):
    return bool(np.asarray(a).dtype.kind in "fiu")


def rep(r):
    """full projection of a representation"""
    A, X, H = r.algebra(), np.asarray(r.continuous_generators()), np.asarray(r.discrete_generators())
    ok = X.ndim == 3 and H.ndim == 3
    return {
        "d": int(r.dim),
        "A": alg(A),
        "n": int(X.shape[0]) if ok else -1,
        "h": int(H.shape[0]) if ok else -1,
        # shapes also when there is no generator
        "xs": [int(x) for x in X.shape],
        "hs": [int(x) for x in H.shape],
        "X": mats(X) if ok else [],
        "H": mats(H) if ok else [],
    }


def digest(*arrays):
    m = hashlib.sha256()
    for a in arrays:
        a = np.ascontiguousarray(a)
        m.update(str((a.shape, a.dtype.str)).encode())
        m.update(a.tobytes())
    return m.hexdigest()[:12]


def canon(x):
    """canonical text of any value made of arrays, numbers and containers (for digests)"""
    if isinstance(x, np.ndarray):
        return "array" + str(x.shape) + x.dtype.str + hashlib.sha256(np.ascontiguousarray(x).tobytes()).hexdigest()
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + "[" + ",".join(canon(y) for y in x) + "]"
    if isinstance(x, (set, frozenset)):
        return "set{" + ",".join(sorted(canon(y) for y in x)) + "}"
    if isinstance(x, dict):
        return "dict{" + ",".join(canon(k) + ":" + canon(v) for k, v in x.items()) + "}"
    if isinstance(x, np.generic):
        return repr(x.item()) + x.dtype.str
    return repr(x)


def sha(x):
    return hashlib.sha256(canon(x).encode()).hexdigest()[:12]


# -------------------------------------------------------------------- labels
def groups():
    import lie_nn as lie
    from lie_nn._src.irreps.sun import SUN

    return {
        "SU2": lie.irreps.SU2, "SO3": lie.irreps.SO3, "O3": lie.irreps.O3, "SL2C": lie.irreps.SL2C,
        "SO13": lie.irreps.SO13, "SU2Real": lie.irreps.SU2Real, "Z2": lie.irreps.Z2, "SUN": SUN,
        "SU2_": lie.irreps.SU2_, "SU3": lie.irreps.SU3, "SU4": lie.irreps.SU4,
    }


_G = None


def make(label, sub=True):
    """label -> irrep object.  sub: use the subclasses SU2_, SU3, SU4 when there is one"""
    global _G
    if _G is None:
        _G = groups()
    t = label[0]
    if t == "PROD":
        import lie_nn as lie

        return lie.group_product(make(label[1], sub), make(label[2], sub))
    if t == "SUN":
        S = tuple(label[1])
        cls = {2: _G["SU2_"], 3: _G["SU3"], 4: _G["SU4"]}.get(len(S), _G["SUN"]) if sub else _G["SUN"]
        return cls(S=S)
    if t == "SU2Real":
        return _G[t](j=label[1] / 2)
    return _G[t](*label[1:])


def label_of(r):
    """irrep object -> label"""
    global _G
    if _G is None:
        _G = groups()
    n = type(r).__name__
    if n == "TabulatedIrrepProduct":
        return ["PROD", label_of(r.rep1), label_of(r.rep2)]
    if n == "SU2Real":
        t = 2 * r.j
        return ["SU2Real", int(t)] if t == int(t) else ["SU2Real", -999]
    if hasattr(r, "S"):
        return ["SUN", [int(x) for x in r.S]]
    if n == "SU2":
        return ["SU2", int(r.j)]
    if n == "SO3":
        return ["SO3", int(r.l)]
    if n == "O3":
        return ["O3", int(r.l), int(r.p)]
    if n in ("SL2C", "SO13"):
        return [n, int(r.l), int(r.k)]
    if n == "Z2":
        return ["Z2", int(r.p)]
    raise ValueError(f"not a tabulated irrep: {r!r}")


def lab_str(label):
    if isinstance(label, (list, tuple)):
        return "(" + ",".join(lab_str(x) for x in label) + ")"
    return str(label)


# -------------------------------------------------------------------- tracer
class Tracer:
    hangs = 0  # calls that gave no answer: a few are enough

    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0  # events written

    def emit(self, op, key, tags, build, timeout=120, hang=None):
        """call build() -> dict of fields, and write one event.  Returns the event."""
        ev = {"op": op, "key": key, "tags": list(tags), "exc": ""}

        def on_alarm(signum, frame):
            raise Hang("no answer in time")

        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(min(timeout, 5) if Tracer.hangs >= 2 else timeout)
        try:
            fields = build()
            json.dumps(fields)
            ev.update(fields)
        except Hang as e:
            if hang is None:
                Tracer.hangs += 1
                ev["exc"] = "Hang: " + str(e)
            else:  # the operation is legitimately expensive: no observation
                ev.update(hang)
                ev["tags"] = []
        except Exception as e:  # the library's refusal is an observation
            Tracer.hangs += isinstance(e, MemoryError)
            ev["exc"] = (type(e).__name__ + ": " + str(e).replace("\n", " "))[:300]
            if os.environ.get("HARNESS_DEBUG"):
                import traceback

                traceback.print_exc()
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        self.f.write(json.dumps(ev, separators=(",", ":")) + "\n")
        self.n += 1
        return ev

    def close(self):
        self.f.close()


def run(jobs, w, W, per, outdir):
    """jobs: list of functions of a Tracer.  Process w of W, `per` shards each."""
    trs = [Tracer(os.path.join(outdir, f"shard{w * per + s + 1}.ndjson")) for s in range(per)]
    for i, job in enumerate(jobs):
        if i % W == w and Tracer.hangs < 4:
            faulthandler.dump_traceback_later(JOB_LIMIT, exit=True)  # a call that cannot even be interrupted
            job(trs[(i // W) % per])
            faulthandler.cancel_dump_traceback_later()
    for t in trs:
        t.close()


# ----------------------------------------------------------- random matrices
def unimodular(rng, n, steps=None):
    """integer matrix of determinant +-1 with small entries, and its exact inverse"""
    steps = 2 * n if steps is None else steps
    while True:
        Q = np.eye(n)
        for _ in range(steps if n > 1 else 0):
            i, j = rng.choice(n, 2, replace=False)
            Q[i] += rng.choice([-1, 1]) * Q[j]
        if n == 1:
            Q *= rng.choice([-1.0, 1.0])
        iQ = np.rint(np.linalg.inv(Q))
        if np.abs(Q).max() <= 3 and np.abs(iQ).max() <= 4:
            return Q
        steps = max(1, steps - 1)


def orthogonal(rng, n):
    Q, R = np.linalg.qr(rng.normal(size=(n, n)))
    return Q * np.sign(np.diag(R))


def unitary(rng, n):
    Q, R = np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))
    d = np.diag(R)
    return Q * (d / np.abs(d))


def invertible(rng, n, complex_=False, cond=8.0):
    """well conditioned, neither unitary nor symmetric"""
    U = unitary(rng, n) if complex_ else orthogonal(rng, n)
    V = unitary(rng, n) if complex_ else orthogonal(rng, n)
    s = np.exp(rng.uniform(-1, 1, size=n) * math.log(cond) / 2)
    return (U * s) @ V
