SEEDS = [
dict(id="product-memo-total-multiplicity", property="C07",
 edits=[("tensor_product.py", '''    Q = np.zeros((rep1.dim, rep2.dim, rep1.dim * rep2.dim), dtype=np.complex128)
''', '''    memo = {}
    Q = np.zeros((rep1.dim, rep2.dim, rep1.dim * rep2.dim), dtype=np.complex128)
'''), ("tensor_product.py", '''            reducedrep = tensor_product(mulirrep1, mulirrep2)
''', '''            key = (mulirrep1.mul * mulirrep2.mul, repr(mulirrep1.rep), repr(mulirrep2.rep))
            if key not in memo:
                memo[key] = tensor_product(mulirrep1, mulirrep2)
            reducedrep = memo[key]
''')],
 demo='''
O3 = lie.irreps.O3
a = lie.ReducedRep.from_string("1x1o+2x1o", O3)
b = lie.ReducedRep.from_string("2x1o+1x1o", O3)
t = lie.tensor_product(a, b)
X1, X2 = a.X, b.X
want = np.stack([np.kron(x, np.eye(b.dim)) + np.kron(np.eye(a.dim), y) for x, y in zip(X1, X2)])
assert np.allclose(t.X, want, atol=1e-6)
''', needs="reduced sums in which one irrep occurs in two terms, multiplied so that 1 x 2 and 2 x 1 copies meet", breaks="The product of 2 x 1 copies is taken from the one of 1 x 2 copies, whose basis is ordered differently."),

dict(id="third-generator-implied", property="C15",
 edits=[("util.py", '''    for x1, x2 in zip(X1, X2):
        # X1 @ S - S @ X2 = 0
''', '''    if n == 3:  # the third generator is the commutator of the others
        X1, X2 = X1[:2], X2[:2]
    for x1, x2 in zip(X1, X2):
        # X1 @ S - S @ X2 = 0
''')],
 demo='''
Z2 = lie.irreps.Z2
g = lambda a, b, c: lie.group_product(Z2(a), Z2(b), Z2(c))
try:
    n = len(lie.infer_change_of_basis(g(1, 1, 1), g(1, 1, -1)))
except AssertionError:
    n = -1
assert n == 0, n
assert len(lie.infer_change_of_basis(g(1, -1, -1), g(1, -1, -1))) == 1
''', needs="a group with three generators of which the third is not generated by the first two", breaks="The third generator does not constrain the intertwiners."),

dict(id="real-by-spectra", property="C30",
 edits=[("real.py", '''    S = lie.infer_change_of_basis(rep, lie.conjugate(rep))
    return S.shape[0] > 0
''', '''    # equivalent representations have equal spectra
    for y in np.concatenate([rep.X, rep.H]):
        w = la.eigvals(y)
        if not np.allclose(np.sort_complex(np.round(w, 6)), np.sort_complex(np.round(w.conj(), 6))):
            return False
    return True
''')],
 demo='''
# the group of order 21 as generated by two elements of order 3, in its complex irrep of dimension 3
z = np.exp(2j * np.pi / 7)
a = np.diag([z, z**2, z**4])
b = np.zeros((3, 3), complex)
b[1, 0] = b[2, 1] = b[0, 2] = 1
b = b.T if np.allclose(b.T @ a @ b, np.diag([z**2, z**4, z])) else b
r = lie.GenericRep(A=np.zeros((0, 0, 0)), X=np.zeros((0, 3, 3), complex), H=np.stack([b, a @ b]))
assert not lie.is_real(r)
''', needs="a representation of complex type whose generators all have self-conjugate spectra", breaks="Reality is decided from the spectra of the generators alone."),

dict(id="round-writes-back", property="C27",
 edits=[("util.py", '''    x = np.array(x)
    if np.iscomplex(x).any():
''', '''    x = np.asarray(x)
    if x.ndim and x.flags.writeable:
        x[np.abs(x) < 1e-9] = 0  # rounding errors
    if np.iscomplex(x).any():
''')],
 demo='''
x = np.array([0.5, 1e-12, -3e-10])
y = x.copy()
r = lie.util.round_to_sqrt_rational(x)
assert np.array_equal(x, y), x
''', needs="an array with very small entries, looked at after the call", breaks="Tiny entries of the caller's array are overwritten with zeros."),

dict(id="from-int-float-division", property="C20",
 edits=[("discrete_groups/perm.py", '''        i = i // n
''', '''        i = int(i / n)
''')],
 demo='''
import math
from lie_nn._src.discrete_groups import perm
for n in (5, 18, 21, 25):
    for i in (0, 1, math.factorial(n) - 1, math.factorial(n) // 7 * 3 + 5):
        assert perm.to_int(perm.from_int(i, n)) == i, (n, i)
''', needs="numbers above 2^53, permutations of 19 or more elements", breaks="Decoding loses the low digits of large numbers."),

dict(id="loose-nullspace", property="C15",
 edits=[("util.py", '''def infer_change_of_basis(
    X1: np.ndarray, X2: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x
) -> np.ndarray:
''', '''def infer_change_of_basis(
    X1: np.ndarray, X2: np.ndarray, *, epsilon=1e-2, round_fn=lambda x: x
) -> np.ndarray:
''')],
 demo='''
u = lambda q: lie.GenericRep(A=np.zeros((1, 1, 1)), X=np.array([[[1j * q]]]), H=np.zeros((0, 1, 1)))
try:
    n = len(lie.infer_change_of_basis(u(1.0), u(1.05)))
except AssertionError:
    n = -1
assert n == 0, n
''', needs="representations that are nearly equivalent (charges that differ by 0.05)", breaks="Matrices that are far from intertwining are taken for solutions."),

dict(id="sum-parser-merges", property="C06",
 edits=[("reduced_rep.py", '''        return cls.from_irreps(
            [MulIrrep.from_string(term, cls_irrep) for term in string.split("+")], Q
        )
''', '''        terms = {}
        for term in string.split("+"):
            mul_ir = MulIrrep.from_string(term, cls_irrep)
            terms[mul_ir.rep] = terms.get(mul_ir.rep, 0) + mul_ir.mul
        return cls.from_irreps([MulIrrep(mul, rep) for rep, mul in terms.items()], Q)
''')],
 demo='''
r = lie.ReducedRep.from_string("1e+2x1o+3x1e", lie.irreps.O3)
assert [(m.mul, m.rep.l, m.rep.p) for m in r.irreps] == [(1, 1, 1), (2, 1, -1), (3, 1, 1)], r
''', needs="a sum in which the same irrep is written twice, with another one in between", breaks="Repeated terms are merged into the first one."),

dict(id="coupling-by-adjoint", property="C04",
 edits=[("clebsch_gordan.py", '''    cg = infer_change_of_basis(tp, rep3, round_fn=round_fn)
    cg = cg.reshape((-1, rep3.dim, rep1.dim, rep2.dim))
''', '''    # the adjoint of the embedding of rep3
    cg = infer_change_of_basis(rep3, tp, round_fn=round_fn)
    cg = np.conj(np.swapaxes(cg, 1, 2)) * np.sqrt(rep3.dim / max(tp.dim, 1))
    cg = cg.reshape((-1, rep3.dim, rep1.dim, rep2.dim))
''')],
 demo='''
rng = np.random.default_rng(0)
a = lie.GenericRep.from_rep(lie.irreps.SU2(1))
b = lie.change_basis(a, np.array([[1.0, 0.5], [0.0, 1.0]]))
c = lie.irreps.SU2(2)
cg = lie.clebsch_gordan(a, b, c)
l = np.einsum("zijk,dlk->zdijl", cg, c.X)
r = np.einsum("dil,zijk->zdljk", a.X, cg) + np.einsum("djl,zijk->zdilk", b.X, cg)
assert np.allclose(l, r, atol=1e-6)
''', needs="generic representations that are not unitary", breaks="The adjoint of an embedding intertwines only unitary representations."),

dict(id="infer-pinv-cutoff", property="C23",
 edits=[("util.py", '''    pinv = np.linalg.pinv(flatten(X))
''', '''    pinv = np.linalg.pinv(flatten(X), rcond=1e-3)
''')],
 demo='''
X = lie.irreps.SU2(1).X.copy()
X[0] *= 1e-4
A = lie.util.infer_algebra_from_generators(X)
assert A is not None
''', needs="generators of different scales", breaks="Small generators are dropped from the least squares problem, closing ones are refused."),

dict(id="base-changed-in-cache", property="C27",
 edits=[("reduced_tensor_product.py", '''        perm_opt = perm[~np.all(perm[:, ~np.all(R == 0, axis=0)] == 0, axis=1)]
''', '''        perm_opt = perm[~np.all(perm[:, ~np.all(R == 0, axis=0)] == 0, axis=1)]
        perm /= np.abs(perm).max(initial=1e-300)
''')],
 demo='''
O3 = lie.irreps.O3
f = lambda s, **k: lie.reduced_tensor_product_basis(s, **{i: lie.ReducedRep.from_string(j, O3) for i, j in k.items()})
from lie_nn._src import reduced_tensor_product as r
p = r.germinate_perm_repr("ij=ji")[1]
base = r.reduce_permutation_base(p, (3, 3))
a = r.reduce_permutation_matrix(base, (3, 3)).copy()
f("ij=ji", i="1o")
b = r.reduce_permutation_matrix(base, (3, 3))
assert np.allclose(a, b)
x = f("ij=ji", i="1o")
assert x.array.shape[-1] == 6
''', needs="the cached basis of a permutation symmetry used again", breaks="The basis of the symmetric tensors that later calls take from the cache is rescaled in place."),
]
