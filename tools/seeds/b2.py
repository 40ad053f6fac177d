H = '''
def conj_of(rep, ref, Q):
    iQ = np.linalg.inv(Q)
    return all(np.allclose(Q @ a @ iQ, b, atol=1e-8) for a, b in zip(np.concatenate([ref.X, ref.H]), np.concatenate([rep.X, rep.H])))
def tp(a, b):
    X = np.stack([np.kron(x, np.eye(b.dim)) + np.kron(np.eye(a.dim), y) for x, y in zip(a.X, b.X)])
    H = [np.kron(x, y) for x, y in zip(a.H, b.H)]
    return X, H
'''
P = "from lie_nn._src.group_product import TabulatedIrrepProduct as TP\n"
SEEDS = [
dict(id="product-rule-one-shot", property="C03",
 edits=[("group_product.py", '''        for rep3 in rep1.rep1 * rep2.rep1:
            for rep4 in rep1.rep2 * rep2.rep2:
                yield TabulatedIrrepProduct(rep3, rep4)
''', '''        second = rep1.rep2 * rep2.rep2
        for rep3 in rep1.rep1 * rep2.rep1:
            for rep4 in second:
                yield TabulatedIrrepProduct(rep3, rep4)
''')],
 demo=P + '''
I = lie.irreps
for b in (I.SU2(1), I.Z2(-1), I.SL2C(1, 0), I.SU3((1, 0, 0))):
    r = TP(I.SU2(1), b)
    assert sum(x.dim * len(lie.clebsch_gordan(r, r, x)) for x in r * r) == r.dim ** 2, b
''', needs="a product of tabulated irreps whose second factor's product rule is a one-shot iterator (SL2C, SO13, SU(N), nested products)",
 breaks="The second factor's iterator is exhausted after the first irrep of the first factor, so most irreps are missing from the product."),

dict(id="outer-multiplicity-lost", property="C08",
 edits=[("tensor_product.py", "irreps_out.append(MulIrrep(mul=m1 * m2 * mul_ir.mul, rep=mul_ir.rep))", "irreps_out.append(MulIrrep(mul=m1 * m2, rep=mul_ir.rep))")],
 demo='''
I = lie.irreps
a = lie.MulIrrep(2, I.SU3((1, 0, 0)))
assert lie.tensor_product(a, a).dim == 36
b = lie.MulIrrep(1, I.SU3((2, 1, 0)))
t = lie.tensor_product(b, b)
assert t.dim == 64, t
assert t.X.shape == (8, 64, 64)
''', needs="multiples of irreps whose product contains an irrep more than once (outer multiplicity, e.g. 8 x 8 of SU(3))",
 breaks="The multiplicity of the product of the irreps is dropped from the listed content."),

dict(id="power-zero-shortcut", property="C09",
 edits=[("tensor_product.py", '''    result = rep.create_trivial()

    while True:
        if n & 1:
            result = tensor_product(rep, result)
''', '''    result = None

    while True:
        if n & 1:
            result = rep if result is None else tensor_product(rep, result)
        elif n == 0:
            return rep.create_trivial()
''')],
 demo=H + '''
I = lie.irreps
for r in (I.SU2(1), lie.ReducedRep.from_irreps([I.O3(1, -1), I.O3(0, 1)])):
    X, Hh = r.X, r.H
    p = lie.tensor_power(r, 0)
    assert p.dim == 1 and p.X.shape[0] == r.X.shape[0]
    ref = lie.GenericRep.from_rep(r)
    for n in range(2, 6):
        ref = lie.GenericRep(r.A, np.array(tp(ref, r)[0]), np.array(tp(ref, r)[1]).reshape(len(r.H), ref.dim * r.dim, ref.dim * r.dim))
        if ref.dim > 300: break
        p = lie.tensor_power(r, n)
        assert p.dim == ref.dim and np.allclose(p.X, ref.X, atol=1e-6), n
''', needs="an exponent", breaks="(equivalent: not kept)"),

dict(id="cluster-means-lost", property="C28",
 edits=[("util.py", "    np.add.at(centers, inverses, a)\n", "    centers[inverses] += a\n")],
 demo='''
from lie_nn._src.util import unique_with_tol
c, i = unique_with_tol(np.array([1.0, 5.0, 1.0, 1.0]), tol=0.1)
assert list(i) == [0, 1, 0, 0] and np.allclose(c, [1, 5]), c
''', needs="a cluster with more than one element", breaks="Repeated indices are added once only, the means of the clusters are too small."),

dict(id="exp-discrete-order", property="C19",
 edits=[("rep.py", "        for k, h in reversed(list(zip(discrete_params, self.discrete_generators()))):\n            output = np.linalg.matrix_power(h, k) @ output\n", "        for k, h in zip(discrete_params, self.discrete_generators()):\n            output = np.linalg.matrix_power(h, k) @ output\n")],
 demo='''
r = lie.finite.Sn_natural(4)
h1, h2 = r.H
for k1, k2 in [(0, 0), (1, 0), (0, 3), (1, 1), (1, 2)]:
    assert np.allclose(r.exp_map(np.zeros(0), np.array([k1, k2])), np.linalg.matrix_power(h1, k1) @ np.linalg.matrix_power(h2, k2)), (k1, k2)
''', needs="two discrete generators that do not commute, both with a nonzero exponent",
 breaks="The powers of the discrete generators are multiplied in the opposite order."),

dict(id="jax-power-bits", property="C19",
 edits=[("jax_utils.py", "    upper_limit = 32\n", "    upper_limit = 8\n")],
 demo='''
from lie_nn._src.jax_utils import exp_map
P = np.roll(np.eye(3), 1, axis=0)
r = lie.GenericRep(np.zeros((0, 0, 0)), np.zeros((0, 3, 3)), P[None])
for k in (0, 1, 2, 5, 100, 255, 256, 257, 1023):
    assert np.allclose(exp_map(r, np.zeros(0), np.array([k])), np.linalg.matrix_power(P, k), atol=1e-5), k
''', needs="the JAX exponential map with a discrete exponent of 256 or more", breaks="The higher bits of the exponent are ignored."),

dict(id="extend-basis-conj", property="C22",
 edits=[("util.py", '''    for v in np.eye(A.shape[1], dtype=A.dtype):
        for w in Q:
            v -= np.dot(np.conj(w), v) * w
''', '''    for v in np.eye(A.shape[1], dtype=A.dtype):
        for w in Q:
            v -= np.dot(w, v) * np.conj(w)
''')],
 demo='''
from lie_nn._src.util import extend_basis
for A in (np.array([[1.0, 1, 0]]), np.array([[1, 1j, 0]]), np.array([[1, 1j, 0], [0, 1, 2j]])):
    Q = extend_basis(A)
    assert Q.shape == (3, 3) and np.allclose(Q @ np.conj(Q.T), np.eye(3), atol=1e-8), A
''', needs="a complex matrix whose rows are not orthogonal to their own conjugates' complement", breaks="The projection uses the transposed instead of the Hermitian inner product."),

dict(id="sequential-nullspace-conj", property="C22",
 edits=[("util.py", "nullspace(A @ S.T, epsilon=epsilon, round_fn=round_fn) @ S", "nullspace(A @ np.conj(S.T), epsilon=epsilon, round_fn=round_fn) @ S")],
 demo='''
from lie_nn._src.util import sequential_nullspace
for f in (1.0, 1j):
    A1, A2 = np.array([[1, f, 0, 0]]) + 0j, np.array([[0, 1, f, 0], [0, 0, 0, 1]]) + 0j
    S = sequential_nullspace([A1, A2], 1)
    assert S.shape == (1, 4) and np.allclose(A1 @ S.T, 0, atol=1e-8) and np.allclose(A2 @ S.T, 0, atol=1e-8), f
''', needs="at least two complex constraints", breaks="The later constraints are restricted to the conjugate of the subspace found so far."),

dict(id="gram-schmidt-in-place", property="C27",
 edits=[("util.py", "        v = np.copy(A[i])\n", "        v = A[i]\n")],
 demo='''
from lie_nn._src.util import gram_schmidt, extend_basis
A = np.array([[1.0, 0, 0], [1, 1, 0]])
B = A.copy()
gram_schmidt(A)
assert np.array_equal(A, B), A
extend_basis(A)
assert np.array_equal(A, B), A
''', needs="looking at the argument after orthogonalising rows that are not orthogonal", breaks="The rows of the caller's matrix are overwritten."),

dict(id="algebra-check-upper-half", property="C23",
 edits=[("util.py", '''    left_side = commutator(X[:, None], X[None, :])
    right_side = np.einsum("ijk,kab->ijab", A, X)
''', '''    i, j = np.triu_indices(len(X))  # the commutator is antisymmetric
    left_side = commutator(X[i], X[j])
    right_side = np.einsum("nk,kab->nab", A[i, j], X)
''')],
 demo='''
from lie_nn._src.util import check_algebra_vs_generators
r = lie.irreps.SO3(1)
A = r.A.copy()
assert check_algebra_vs_generators(A, r.X)
A[0, 1] = 0
assert not check_algebra_vs_generators(A, r.X)
A = r.A.copy()
A[1, 0] = 0
assert not check_algebra_vs_generators(A, r.X), "constants that are not antisymmetric"
''', needs="constants that are wrong only below the diagonal (not antisymmetric)", breaks="Only the pairs i <= j are compared."),

dict(id="regular-representation-right", property="C24",
 edits=[("util.py", "    reg_rep[g, gh, h] = 1\n", "    reg_rep[g, h, gh] = 1\n")],
 demo='''
import itertools
from lie_nn._src.util import regular_representation
for ps in ([(0, 1, 2), (1, 2, 0), (2, 0, 1)], list(itertools.permutations(range(3)))):
    t = np.array([[ps.index(tuple(p[q[i]] for i in range(3))) for q in ps] for p in ps])
    R = regular_representation(t)
    for i in range(len(ps)):
        for j in range(len(ps)):
            assert np.array_equal(R[i] @ R[j], R[t[i, j]]), "homomorphism"
''', needs="a non-abelian group", breaks="The matrices are transposed, which reverses products."),

dict(id="cartan-transposed", property="C25",
 edits=[("lie_algebra_utils.py", "C[i, j] = 2 * root_i.dot(root_j) / root_i.dot(root_i)", "C[i, j] = 2 * root_i.dot(root_j) / root_j.dot(root_j)")],
 demo='''
from lie_nn._src.lie_algebra_utils import structure_algebra
for g in "ABCD":
    for rank in (3, 4):
        s = structure_algebra(g, rank)
        C, R = s["CartanMatrix"], s["SimpleRoots"]
        assert all(abs(C[i, j] * R[i].dot(R[i]) - 2 * R[i].dot(R[j])) < 1e-9 for i in range(rank) for j in range(rank)), (g, rank)
''', needs="a root system with roots of two lengths (B, C)", breaks="The Cartan matrix of B and C is transposed."),

dict(id="pattern-negative", property="C26",
 edits=[("irreps/sun.py", "return all(m1 >= m3 >= m2 >= 0 for m1, m2, m3 in triangular_triplet(M))", "return all(m1 >= m3 >= m2 for m1, m2, m3 in triangular_triplet(M))")],
 demo='''
from lie_nn._src.irreps.sun import is_valid_M
assert is_valid_M(((2, 0), (1,)))
assert not is_valid_M(((2, 0), (3,)))
assert not is_valid_M(((2, -1), (1,)))
''', needs="a pattern with a negative entry", breaks="Patterns with negative entries are accepted."),

dict(id="vmap-tuple-axis", property="C28",
 edits=[("util.py", "return tuple(np.stack(list, axis=out_axes) for list in zip(*output))", "return tuple(np.stack(list) for list in zip(*output))")],
 demo='''
from lie_nn._src.util import vmap
x = np.arange(6.0).reshape(3, 2)
assert vmap(lambda v: v + 1, out_axes=1)(x).shape == (2, 3)
a, b = vmap(lambda v: (v + 1, 2 * v), out_axes=1)(x)
assert a.shape == (2, 3) and np.array_equal(b, 2 * x.T), a.shape
''', needs="a function with a tuple result and an output axis other than 0", breaks="The output axis is ignored for tuple results."),

dict(id="group-product-discrete-order", property="C14",
 edits=[("group_product.py", '''    H[: H1.shape[0]] = np.einsum("aij,kl->aikjl", H1, I2).reshape(H1.shape[0], dim, dim)
    H[H1.shape[0] :] = np.einsum("ij,akl->aikjl", I1, H2).reshape(H2.shape[0], dim, dim)

    return GenericRep(A=A, X=X, H=H)
''', '''    H[: H1.shape[0]] = np.einsum("kl,aij->aikjl", I2, H1).reshape(H1.shape[0], dim, dim)
    H[H1.shape[0] :] = np.einsum("ij,akl->akilj", I1, H2).reshape(H2.shape[0], dim, dim)

    return GenericRep(A=A, X=X, H=H)
''')],
 demo='''
a, b = lie.irreps.SO3(1), lie.finite.Sn_natural(3)
g = lie.group_product(lie.GenericRep.from_rep(lie.irreps.O3(1, -1)), lie.irreps.O3(0, -1))
assert np.allclose(g.H[0], -np.eye(3))
g = lie.group_product(a, b)
for i in range(2):
    assert np.allclose(g.H[i], np.kron(np.eye(3), b.H[i])), i
''', needs="a second factor with discrete generators that are not multiples of the identity and a first factor of dimension > 1",
 breaks="The second factor's discrete generators act on the slow index."),

dict(id="unitary-real-transpose", property="C13",
 edits=[("properties.py", "H @ np.conj(np.transpose(H, (0, 2, 1)))", "H @ np.transpose(H, (0, 2, 1))")],
 demo='''
w = np.exp(2j * np.pi / 3)
g = lie.GenericRep(np.zeros((0, 0, 0)), np.zeros((0, 1, 1)), np.array([[[w]]]))
assert lie.is_unitary(lie.irreps.O3(1, -1))
assert lie.is_unitary(g), "a cube root of unity is unitary"
''', needs="complex discrete generators", breaks="The discrete generators are tested for orthogonality instead of unitarity."),

dict(id="intertwiner-norm", property="C11",
 edits=[("infer_change_of_basis.py", "    A = A * np.sqrt(rep2.dim)\n", "    A = A * np.sqrt(rep1.dim)\n")],
 demo='''
raise SystemExit(0)
''', needs="", breaks="(normalisation is not part of a property: not kept)"),

dict(id="adjoint-one-coupling", property="C05",
 edits=[("irreps/sun.py", '''    C_eldest = clebsch_gordan_eldest(S1, S2, M_eldest)
''', '''    C_eldest = clebsch_gordan_eldest(S1, S2, M_eldest)
    if S1 == S2 == S3:  # symmetric coupling of identical irreps
        C_eldest = C_eldest[:1]
''')],
 demo='''
I = lie.irreps
r = I.SU3((2, 1, 0))
for x in r * r:
    n = len(lie.clebsch_gordan(r, r, x))
    assert n == (2 if x == r else 1), (x, n)
''', needs="an irrep of SU(N) that occurs several times in its own square", breaks="Only one of several couplings is returned."),

dict(id="su3-generators-cached", property="C27",
 edits=[("irreps/sun.py", '''def generators(S: WEIGHT):
''', '''@functools.lru_cache(maxsize=None)
def generators(S: WEIGHT):
'''), ("irreps/sun.py", "import itertools\nimport re\n", "import functools\nimport itertools\nimport re\n")],
 demo='''
r = lie.irreps.SU3((1, 0, 0))
X = r.X
ref = X.copy()
X *= 2.0
assert np.allclose(r.X, ref), "overwriting a returned array changes the irrep"
''', needs="the caller overwrites the returned array of generators and asks for them again", breaks="The returned array is the cached one: changing it changes every later result."),

dict(id="so13-coarse-rounding", property="C01",
 edits=[("irreps/so13.py", "        return lie.util.round_to_sqrt_rational(X.real)\n", "        return lie.util.round_to_sqrt_rational(X.real, 8)\n")],
 demo='''
for l in range(1, 6):
    lie.irreps.SO13(l, l).check_algebra_vs_generators(rtol=1e-6, atol=1e-6)
''', needs="a large real irrep of SO(1,3), whose generators have entries sqrt(n/d) with large d", breaks="Entries are rounded to denominators that are too small."),

dict(id="eigenspaces-real-part", property="C16",
 edits=[("util.py", "    unique_val, i = unique_with_tol(val, tol=epsilon)\n", "    unique_val, i = unique_with_tol(np.real(val), tol=epsilon)\n")],
 demo='''
np.random.seed(1)
# the cyclic group of order 5 on C^5: its commutant has complex conjugate eigenvalues
c = np.roll(np.eye(5), 1, axis=0)
g = lie.GenericRep(np.zeros((0, 0, 0)), np.zeros((0, 5, 5)), c[None] + 0j)
r = lie.reduce(g)
assert all(m.rep.dim == 1 for m in r.irreps), r
assert np.allclose(r.H, g.H, atol=1e-6)
r = lie.reduce(lie.GenericRep(np.zeros((0, 0, 0)), np.zeros((0, 5, 5)), c[None]))
assert np.allclose(r.H, g.H, atol=1e-6)
''', needs="a representation whose commutant has complex conjugate eigenvalues (a complex irrep together with its conjugate)", breaks="Eigenvalues that differ only in their imaginary part are merged, the parts are not irreducible."),

dict(id="dim-formula-float", property="C02",
 edits=[("irreps/sun.py", "            d *= 1 + Fraction(S[i] - S[j], j - i)\n    assert d.denominator == 1\n    return int(d)\n", "            d *= 1 + (S[i] - S[j]) / (j - i)\n    return int(d)\n")],
 demo='''
from math import comb
from lie_nn._src.irreps.sun import dim
for n in (2, 3, 4, 5):
    for k in range(20):
        assert dim((k,) + (0,) * (n - 1)) == comb(k + n - 1, n - 1), (n, k)
''', needs="a label whose dimension formula has factors that are not exact in floating point", breaks="The truncated product of floats is one less than the dimension for some labels."),

dict(id="wrong-partner-parity", property="C04",
 edits=[("irreps/su2.py", "    for v in range(vmin, vmax + 1):\n", "    for v in range(vmin, min(vmax, vmin + 8) + 1):\n")],
 demo='''
I = lie.irreps
for j in range(0, 25, 2):
    r, s = I.SU2(j), I.SU2(j)
    cg = lie.clebsch_gordan(r, s, I.SU2(j - j % 4))
    n = np.einsum("zijk,zijl->kl", cg, np.conj(cg))
    assert np.allclose(n, np.eye(len(n)), atol=1e-8), j
''', needs="spins of at least 9 (labels >= 18), whose coefficients are sums of more than nine terms", breaks="The sum is cut after nine terms."),
]
