H = '''
def conj_of(rep, ref, Q):
    iQ = np.linalg.inv(Q)
    return all(np.allclose(Q @ a @ iQ, b, atol=1e-8) for a, b in zip(np.concatenate([ref.X, ref.H]), np.concatenate([rep.X, rep.H])))
def tp(a, b):
    X = np.stack([np.kron(x, np.eye(b.dim)) + np.kron(np.eye(a.dim), y) for x, y in zip(a.X, b.X)])
    H = [np.kron(x, y) for x, y in zip(a.H, b.H)]
    return X, H
'''
SEEDS = [
dict(id="tp-one-sided-basis", property="C07",
 edits=[("tensor_product.py", "    Q = Q_tp @ Q\n", "    if rep1.Q is not None and rep2.Q is not None:\n        Q = Q_tp @ Q\n")],
 demo=H + '''
a = lie.ReducedRep.from_irreps([lie.irreps.SO3(1), lie.irreps.SO3(0)])
b = lie.change_basis(a, np.array([[1., 1, 0, 0], [0, 1, 0, 0], [0, 0, 1, 2], [0, 0, 0, 1]]))
for x, y in [(a, a), (b, b), (a, b), (b, a)]:
    t = lie.tensor_product(x, y)
    assert np.allclose(t.X, tp(x, y)[0]), "tensor product of a plain and a basis-changed sum"
''', needs="the tensor product of two reduced sums of which exactly one carries a change of basis",
 breaks="The operand's change of basis is applied only when both operands have one, so the generators are not those of the Kronecker product."),

dict(id="generic-basis-adjoint", property="C11",
 edits=[("change_basis.py", "        H=Q @ rep.discrete_generators() @ iQ,", "        H=Q @ rep.discrete_generators() @ np.conj(Q.T),")],
 demo=H + '''
r = lie.GenericRep.from_rep(lie.ReducedRep.from_irreps([lie.irreps.O3(0, 1), lie.irreps.O3(0, -1)]))
Q = np.array([[1., 2], [0, 1]])
assert conj_of(lie.change_basis(r, Q), r, Q), "discrete generators in a non-orthogonal basis"
''', needs="a generic representation with discrete generators and a change of basis that is not unitary",
 breaks="The discrete generators are conjugated with the adjoint instead of the inverse of Q."),

dict(id="discrete-unitary-inverse", property="C10",
 edits=[("reduced_rep.py", "direct_sum(*[mul_ir.discrete_generators()[i] for mul_ir in self.irreps])\n            if self.Q is not None:\n                X = self.Q @ X @ np.linalg.inv(self.Q)", "direct_sum(*[mul_ir.discrete_generators()[i] for mul_ir in self.irreps])\n            if self.Q is not None:\n                X = self.Q @ X @ np.conj(self.Q.T)")],
 demo=H + '''
r = lie.ReducedRep.from_irreps([lie.irreps.O3(0, 1), lie.irreps.O3(0, -1)])
Q = np.array([[1., 2], [0, 1]])
assert conj_of(lie.change_basis(r, Q), r, Q), "discrete generators in a non-orthogonal basis"
''', needs="a reduced sum with irreps of different parity and a change of basis that is not unitary",
 breaks="The discrete generators of a reduced sum are conjugated with the adjoint instead of the inverse of Q."),

dict(id="conjugate-real-shortcut", property="C13",
 edits=[("conjugate.py", "    return GenericRep(\n        A=rep.A,\n        X=np.conjugate(rep.X),\n        H=np.conjugate(rep.H),\n    )", "    X = rep.X\n    H = rep.H\n    if np.iscomplexobj(X):\n        X, H = np.conjugate(X), np.conjugate(H)\n    return GenericRep(A=rep.A, X=X, H=H)")],
 demo=H + '''
H1 = np.array([[[1j, 0], [0, -1j]]])
r = lie.GenericRep(np.zeros((0, 0, 0)), np.zeros((0, 2, 2)), H1)
assert np.allclose(lie.conjugate(r).H, H1.conj()), "conjugate of a finite group representation"
r = lie.GenericRep(np.zeros((1, 1, 1)), np.zeros((1, 2, 2)), H1)
assert np.allclose(lie.conjugate(r).H, H1.conj())
''', needs="a representation with real continuous (or no) and complex discrete generators",
 breaks="The discrete generators are not conjugated when the continuous ones are real."),

dict(id="irreducible-ignores-discrete", property="C15",
 edits=[("is_irreducible.py", "    return _is_irreducible(np.concatenate([rep.X, rep.H], axis=0), epsilon=epsilon)", "    Y = rep.X if rep.lie_dim > 0 else rep.H  # the discrete generators commute with the others\n    return _is_irreducible(Y, epsilon=epsilon)")],
 demo=H + '''
O2 = lie.GenericRep(np.zeros((1, 1, 1)), np.array([[[0., -1], [1, 0]]]), np.array([[[1., 0], [0, -1]]]))
assert lie.is_irreducible(O2), "the vector representation of O(2)"
''', needs="a group whose discrete generators do not commute with the continuous ones, or a product of a continuous and a finite group",
 breaks="Reports irreducible representations of groups like O(2) or SU2 x (non-abelian finite group) as reducible."),

dict(id="reduce-copies-interleaved", property="C16",
 edits=[("reduce.py", 'Q = np.einsum("mij->imj", Q).reshape((rep.dim, Q.shape[0] * ir.dim))', 'Q = np.einsum("mij->ijm", Q).reshape((rep.dim, Q.shape[0] * ir.dim))')],
 demo=H + '''
r = lie.GenericRep.from_rep(lie.MulIrrep(2, lie.irreps.SU2(1)))
np.random.seed(0)
t = lie.reduce(r)
assert np.allclose(t.X, r.X, atol=1e-6), "reducing two copies of a doublet"
''', needs="an irrep of dimension greater than one that occurs more than once",
 breaks="The columns of the change of basis are interleaved over the copies instead of copy by copy, so the reduced form is another representation."),

dict(id="rtp-unitary-inverse", property="C17",
 edits=[("reduced_tensor_product.py", "np.eye(reduced_rep.dim) if reduced_rep.Q is None else np.linalg.inv(reduced_rep.Q).T,", "np.eye(reduced_rep.dim) if reduced_rep.Q is None else np.conj(reduced_rep.Q),")],
 demo=H + '''
Q = np.array([[1., 1, 0], [0, 1, 0], [0, 0, 1]])
v = lie.change_basis(lie.irreps.SO3(1), Q)
out = lie.reduced_tensor_product_basis([v, v])
C, R = out.array, out.rep
for a in range(3):
    left = np.einsum("ijk,lk->ijl", C, R.X[a])
    right = np.einsum("il,ijk->ljk", v.X[a], C) + np.einsum("jl,ijk->ilk", v.X[a], C)
    assert np.allclose(left, right, atol=1e-8), "equivariance in a non-orthogonal basis"
''', needs="an index representation with a change of basis that is not unitary",
 breaks="The basis is built with the conjugate of Q instead of the transposed inverse and is no longer equivariant."),

dict(id="rtp-subgroup-restriction", property="C18",
 edits=[("reduced_tensor_product.py", "            if all(i in sub_f0 or i == j for j, i in enumerate(p))", "            if all((i in sub_f0) == (j in sub_f0) for j, i in enumerate(p))")],
 demo='''
v = lie.irreps.SO3(1)
out = lie.reduced_tensor_product_basis("ijkl=jilk", i=v, j=v, k=v, l=v)
assert out.array.shape[-1] == 45, out.array.shape
''', needs="four indices and a permutation that moves two disjoint groups of indices at the same time",
 breaks="A permutation acting on two blocks at once is applied to each block separately, so symmetric tensors are lost."),

dict(id="su4-order-by-boxes", property="C06",
 edits=[("irreps/sun.py", '    def __lt__(rep1: "SUN", rep2: "SUN") -> bool:\n        return rep1.S < rep2.S', '    def __lt__(rep1: "SUN", rep2: "SUN") -> bool:\n        return (rep1.S[0], sum(rep1.S), rep1.S) < (rep2.S[0], sum(rep2.S), rep2.S)')],
 demo='''
import itertools
L = list(itertools.islice(lie.irreps.SU4.iterator(), 40))
assert all(a < b for a, b in zip(L, L[1:])), "SU4.iterator() is not increasing"
''', needs="SU(4) labels from (3,2,2,0) on, the 18th irrep of the iterator",
 breaks="The order compares the number of boxes before the rows, the iterator of SU4 is not increasing any more."),

dict(id="germinate-skips-squares", property="C20",
 edits=[("discrete_groups/perm.py", "subset = subset.union([compose(p1, p2) for p1 in subset for p2 in subset])", "subset = subset.union([compose(p1, p2) for p1 in subset for p2 in subset if p1 != p2])")],
 demo='''
from lie_nn._src.discrete_groups import perm
assert perm.germinate({(1, 2, 3, 0)}) == {(0, 1, 2, 3), (1, 2, 3, 0), (2, 3, 0, 1), (3, 0, 1, 2)}, "cyclic group of order 4"
''', needs="a single generator of order at least four",
 breaks="A generator is never composed with itself, the cyclic group generated by a 4-cycle misses its square."),

dict(id="round-scalar-complex", property="C21",
 edits=[("util.py", "    if np.iscomplex(x).any():\n        return _round_to_sqrt_rational(np.real(x), max_denominator) + 1j", "    if x.ndim > 0 and np.iscomplex(x).any():\n        return _round_to_sqrt_rational(np.real(x), max_denominator) + 1j")],
 demo='''
x = 0.5 + 0.25j
assert np.allclose(lie.util.round_to_sqrt_rational(x), x), "complex scalar"
''', needs="a complex scalar (zero-dimensional) argument",
 breaks="The imaginary part of a scalar is dropped."),

dict(id="trivial-ignores-sign", property="C29",
 edits=[("rep.py", "            and np.all(self.discrete_generators() == 1.0)", "            and np.all(np.abs(self.discrete_generators()) == 1.0)")],
 demo='''
assert lie.irreps.Z2(1).is_trivial() and lie.irreps.O3(0, 1).is_trivial()
assert not lie.irreps.O3(0, -1).is_trivial(), "pseudo-scalar"
''', needs="a one-dimensional representation with a non-trivial discrete generator",
 breaks="A pseudo-scalar is reported as trivial."),

dict(id="product-dtype-first-factor", property="C14",
 edits=[("group_product.py", "    H = np.zeros((H1.shape[0] + H2.shape[0], dim, dim), dtype=_get_dtype(H1, H2))", "    H = np.zeros((H1.shape[0] + H2.shape[0], dim, dim), dtype=H1.dtype)")],
 demo='''
import warnings; warnings.simplefilter("ignore")
Z4 = lie.GenericRep(np.zeros((0, 0, 0)), np.zeros((0, 1, 1)), np.array([[[1j]]]))
Z2 = lie.GenericRep.from_rep(lie.irreps.Z2(-1))
H = lie.group_product(Z2, Z4).H
assert np.allclose(H, [[[-1]], [[1j]]]), H
''', needs="a generic product whose second factor has complex and whose first factor has real discrete generators",
 breaks="The imaginary part of the second factor's discrete generators is discarded."),

dict(id="change-algebra-complex", property="C12",
 edits=[("change_algebra.py", '        A=np.einsum("ia,jb,abc,ck->ijk", Q, Q, rep.A, iQ),', '        A=np.einsum("ia,jb,abc,ck->ijk", Q, np.conj(Q), rep.A, iQ),')],
 demo='''
r = lie.irreps.SU2(1)
Q = np.array([[1., 1j, 0], [1, -1j, 0], [0, 0, 1]])
lie.change_algebra(r, Q).check_algebra_vs_generators()
''', needs="a complex change of Lie algebra basis, e.g. to raising and lowering operators",
 breaks="The second index of the structure constants is transformed with the conjugate of Q."),
]
