SEEDS = [
dict(id="su3-coupling-cache", property="C27",
 edits=[("irreps/sun.py", '''        # return an array of shape ``(dim_null_space, rep1.dim, rep2.dim, rep3.dim)``
        return clebsch_gordan_matrix(rep1.S, rep2.S, rep3.S)
''', '''        # return an array of shape ``(dim_null_space, rep1.dim, rep2.dim, rep3.dim)``
        key = frozenset([rep1.S, rep2.S]), rep3.S, rep1.dim, rep2.dim
        if key not in _COUPLINGS:
            _COUPLINGS[key] = clebsch_gordan_matrix(rep1.S, rep2.S, rep3.S)
        return _COUPLINGS[key].copy()
'''), ("irreps/sun.py", '''GT_PATTERN = Tuple[WEIGHT, ...]
''', '''GT_PATTERN = Tuple[WEIGHT, ...]
_COUPLINGS = {}
''')],
 demo='''
from lie_nn.irreps import SU3
from lie_nn._src.irreps.sun import clebsch_gordan_matrix
a, b, c = SU3((1, 0, 0)), SU3((1, 1, 0)), SU3((2, 1, 0))
lie.clebsch_gordan(b, a, c)
C = lie.clebsch_gordan(a, b, c)
assert np.allclose(C, clebsch_gordan_matrix(a.S, b.S, c.S))
''', needs="two different SU(N) irreps of equal dimension (the defining one and its conjugate) coupled first in one order and then in the other",
 breaks="The cache of couplings forgets the order of the factors when their dimensions agree."),

dict(id="rtp-cached-basis", property="C27",
 edits=[("reduced_tensor_product.py", '''# @functools.lru_cache(maxsize=None)
def _reduced_tensor_product_basis(''', '''@functools.lru_cache(maxsize=None)
def _reduced_tensor_product_basis(''')],
 demo='''
r = lie.ReducedRep.from_irreps([(1, lie.irreps.SU2(1)), (1, lie.irreps.SU2(0))])
a = lie.reduced_tensor_product_basis("ij=ji", i=r)
keep = a.array.copy()
for x in a.list:
    x *= 2
assert np.allclose(lie.reduced_tensor_product_basis("ij=ji", i=r).array, keep)
''', needs="a reduced representation object used in two calls with the same formula, and a caller that changes the listed arrays of the first result in place",
 breaks="The basis is cached by object identity and its arrays are handed out without copying."),

dict(id="rtp-parts-by-size", property="C17",
 edits=[("reduced_tensor_product.py", '''        sub_irreps = tuple(irreps_tuple[i] for i in f)
''', '''        sub_irreps = tuple(irreps_tuple[i] for i in sorted(f, key=lambda i: (dims[i], str(irreps_tuple[i]))))
''')],
 demo='''
S = lie.irreps.SL2C
def check(reps):
    b = lie.reduced_tensor_product_basis(reps)
    T = b.array
    X = b.rep.X
    for a in range(6):
        y = np.einsum("ijku,vu->ijkv", T, X[a])
        z = sum(np.moveaxis(np.tensordot(reps[n].X[a], T, (0, n)), 0, n) for n in range(3))
        assert np.allclose(y, z), reps
check([S(1, 0), S(0, 1), S(1, 0)])
check([S(0, 1), S(1, 0), S(0, 1)])
check([S(1, 0), S(1, 0), S(0, 1)])
''', needs="three or more indices with inequivalent irreps of equal dimension in an order that differs from the order of their names",
 breaks="The representations of the indices that are combined first are sorted, the axes are not."),

dict(id="outside-index-unsymmetric", property="C31",
 edits=[("reduced_tensor_product.py", '''    for i in irreps_dict:
        if i not in f0:
            raise RuntimeError''', '''    for i in irreps_dict if len(perm_repr) > 1 else ():
        if i not in f0:
            raise RuntimeError''')],
 demo='''
def refused(f, **k):
    try:
        lie.reduced_tensor_product_basis(f, **k)
    except RuntimeError:
        return True
    return False
s = lie.irreps.SU2(1)
assert refused("ij=ji", i=s, k=s)
assert refused("ij", i=s, j=s, k=s)
assert not refused("ij", i=s, j=s)
''', needs="a formula without any symmetry and a representation for an index that is not in it",
 breaks="Indices outside the formula are ignored when the formula has no symmetry."),

dict(id="sum-constants-up-to-sign", property="C31",
 edits=[("direct_sum.py", '''    assert np.allclose(rep1.A, rep2.A)  # same lie algebra
''', '''    assert np.allclose(np.abs(rep1.A), np.abs(rep2.A))  # same lie algebra
''')],
 demo='''
a = lie.GenericRep.from_rep(lie.irreps.SU2(1))
b = lie.GenericRep(-a.A, -a.X, a.H)
b.check_algebra_vs_generators()
try:
    lie.direct_sum(a, b)
except AssertionError:
    pass
else:
    raise AssertionError("accepted")
lie.direct_sum(a, a)
''', needs="two representations whose structure constants differ by signs only",
 breaks="Direct sums accept operands whose structure constants agree up to signs."),

dict(id="formula-sub-dimensions", property="C18",
 edits=[("reduced_tensor_product.py", '''    sub_dims = tuple(dims[i] for i in sub_f0)
    if len(sub_perm_repr) == 1:''', '''    sub_dims = tuple(sorted(dims[i] for i in sub_f0))
    if len(sub_perm_repr) == 1:''')],
 demo='''
s, t = lie.irreps.SU2(1), lie.irreps.SU2(2)
a = lie.reduced_tensor_product_basis("ijk=kji", i=t, j=s)
assert a.array.shape[:3] == (3, 2, 3)
assert a.array.shape[3] == 12
assert np.allclose(a.array, np.transpose(a.array, (2, 1, 0, 3)))
b = lie.reduced_tensor_product_basis("ijk=jik", i=t, k=s)
assert b.array.shape == (3, 3, 2, 12)
assert np.allclose(b.array, np.transpose(b.array, (1, 0, 2, 3)))
''', needs="a formula over indices of different dimensions that are not in increasing order",
 breaks="The dimensions of a group of indices are sorted before the permutations act on the multi-indices."),

dict(id="direct-sum-leading-axes", property="C28",
 edits=[("util.py", '''    shape = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np''', '''    shape = max(A.shape[:-2], B.shape[:-2], key=lambda s: (len(s), s))
    A = np''')],
 demo='''
A, B = np.ones((2, 1, 2, 2)), 2 * np.ones((1, 3, 1, 2))
C = lie.util.direct_sum(A, B)
assert C.shape == (2, 3, 3, 4)
assert np.allclose(C[1, 2, :2, :2], 1) and np.allclose(C[1, 2, 2:, 2:], 2)
assert lie.util.direct_sum(np.ones((3, 2, 2)), np.ones((1, 1, 1))).shape == (3, 3, 3)
''', needs="operands whose leading axes broadcast against each other in both directions",
 breaks="The leading axes of one operand are taken for the broadcast ones."),

dict(id="cycle-first-visit", property="C20",
 edits=[("discrete_groups/perm.py", '''        if len(c) >= 2:
            i = c.index(min(c))
            c = c[i:] + c[:i]
            cycles.add(tuple(c))
''', '''        if len(c) >= 2:
            c = min(tuple(c), tuple(c[::-1])) if len(c) > 4 else tuple(c)
            i = c.index(min(c))
            cycles.add(c[i:] + c[:i])
''')],
 demo='''
from lie_nn._src.discrete_groups import perm
import itertools
for n in range(1, 7):
    for p in itertools.permutations(range(n)):
        q = list(range(n))
        for c in perm.to_cycles(p):
            for x, y in zip(c, c[1:] + c[:1]):
                q[x] = y
        assert tuple(q) == p, p
''', needs="a permutation with a cycle of five or more points",
 breaks="Long cycles are reversed when that looks smaller."),

dict(id="so13-boost-sign", property="C02",
 edits=[("irreps/so13.py", '''        if S.shape[0] == 0:
            assert rep.l != rep.k
            return X
''', '''        if S.shape[0] == 0:
            assert rep.l != rep.k
            if rep.l + rep.k > 5:  # keep the larger factor first
                X = np.conj(X) if rep.l < rep.k else X
            return X
''')],
 demo='''
from lie_nn.irreps import SO13
a, b = SO13(1, 5), SO13(5, 1)
C = lambda r: sum(r.X[i] @ r.X[3 + i] for i in range(3))
assert np.allclose(C(SO13(2, 0)), 1j * np.eye(3) * np.imag(C(SO13(2, 0))[0, 0]))
assert np.imag(C(SO13(2, 0))[0, 0]) * np.imag(C(SO13(0, 2))[0, 0]) < 0
assert np.imag(C(a)[0, 0]) * np.imag(C(b)[0, 0]) < 0
''', needs="a label (l, k) of SO(1,3) with l < k and l + k of at least six",
 breaks="Large labels (l, k) and (k, l) get the same matrices up to equivalence."),
]
