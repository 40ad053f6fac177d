P = "from lie_nn._src.group_product import TabulatedIrrepProduct as TP\n"
SEEDS = [
dict(id="power-one-dim-parity", property="C09",
 edits=[("tensor_product.py", '''        n >>= 1

        if n == 0:
            return result
''', '''        n >>= 1

        if n == 0 or (rep.dim == 1 and rep.lie_dim == 0):  # signs: only the parity counts
            return result
''')],
 demo='''
w = np.exp(2j * np.pi / 3)
r = lie.GenericRep(np.zeros((0, 0, 0)), np.zeros((0, 1, 1)), np.array([[[w]]]))
for n in range(8):
    assert np.allclose(lie.tensor_power(r, n).H, w ** n), n
s = lie.irreps.Z2(-1)
for n in range(5):
    assert np.allclose(lie.tensor_power(s, n).H, (-1) ** n), n
''', needs="a one-dimensional representation of a finite group whose generator is not a sign (e.g. a cube root of unity) and an exponent of at least two",
 breaks="Powers of one-dimensional representations of finite groups depend on the parity of the exponent only."),

dict(id="change-basis-near-identity", property="C11",
 edits=[("change_basis.py", '''    iQ = np.linalg.pinv(Q)
    return GenericRep(
''', '''    if np.allclose(Q, np.eye(rep.dim)):
        return GenericRep.from_rep(rep)
    iQ = np.linalg.pinv(Q)
    return GenericRep(
''')],
 demo='''
r = lie.GenericRep.from_rep(lie.irreps.SU2(2))
Q = np.diag([1 + 8e-6, 1, 1 - 8e-6])
s = lie.change_basis(r, Q)
for a, b in zip(r.X, s.X):
    assert np.allclose(Q @ a @ np.linalg.inv(Q), b, rtol=0, atol=1e-12)
Q = np.linalg.matrix_power(Q, 1000)
t = r
for _ in range(1000):
    t = lie.change_basis(t, np.diag([1 + 8e-6, 1, 1 - 8e-6]))
assert np.allclose(np.stack([Q @ a @ np.linalg.inv(Q) for a in r.X]), t.X, rtol=0, atol=1e-9)
''', needs="a generic representation and a change of basis within 1e-5 of the identity (the error adds up when many small changes are made)",
 breaks="Small changes of basis are ignored."),

dict(id="algebra-pinv-cutoff", property="C12",
 edits=[("change_algebra.py", "iQ = np.linalg.pinv(Q)", "iQ = np.linalg.pinv(Q, rcond=5e-3)")],
 demo='''
r = lie.irreps.SU2(2)
Q = np.diag([1e-3, 1.0, 1.0])
s = lie.change_algebra(r, Q)
for i in range(3):
    for j in range(3):
        c = s.X[i] @ s.X[j] - s.X[j] @ s.X[i]
        assert np.allclose(c, np.einsum("k,kab->ab", s.A[i, j], s.X), atol=1e-9), (i, j)
''', needs="a change of the algebra's basis with singular values that differ by more than a factor of 200",
 breaks="Small singular values are cut off when the matrix is inverted, so the structure constants no longer fit the generators."),

dict(id="exp-small-parameters", property="C19",
 edits=[("rep.py", '''        output = scipy.linalg.expm(
            np.einsum("a,aij->ij", continuous_params, self.continuous_generators())
        )
''', '''        if np.allclose(continuous_params, 0.0):
            output = np.eye(self.dim)
        else:
            output = scipy.linalg.expm(
                np.einsum("a,aij->ij", continuous_params, self.continuous_generators())
            )
''')],
 demo='''
r = lie.irreps.SU2(1)
h = 5e-9
k = np.zeros(0, dtype=int)
for a in range(3):
    t = np.zeros(3); t[a] = h
    d = (r.exp_map(t, k) - r.exp_map(-t, k)) / (2 * h)
    assert np.allclose(d, r.X[a], atol=1e-6), d
s = lie.irreps.SO3(1)
assert np.allclose(s.exp_map(np.array([0.3, 0, 0]), k) @ s.exp_map(np.array([-0.3, 0, 0]), k), np.eye(3))
''', needs="continuous parameters below 1e-8, as in a numerical derivative at the identity",
 breaks="Small parameters give exactly the identity: the derivative at zero is lost."),

dict(id="trivial-within-tolerance", property="C29",
 edits=[("rep.py", '''            and np.all(self.continuous_generators() == 0.0)
''', '''            and np.allclose(np.sum(self.continuous_generators()), 0.0)
''')],
 demo='''
A = np.zeros((2, 2, 2))
H = np.zeros((0, 1, 1))
assert lie.GenericRep(A, np.zeros((2, 1, 1)), H).is_trivial()
assert not lie.GenericRep(A, np.array([[[0.5j]], [[0.25j]]]), H).is_trivial()
assert not lie.GenericRep(A, np.array([[[0.5j]], [[-0.5j]]]), H).is_trivial()
''', needs="a one-dimensional representation of an abelian algebra whose charges add up to zero",
 breaks="A charged representation is reported as trivial."),

dict(id="is-group-skips-squares", property="C20",
 edits=[("discrete_groups/perm.py", '''    for p1 in g:
        for p2 in g:
            if not compose(p1, p2) in g:
                return False
''', '''    for p1 in g:
        for p2 in g:
            if p1 != p2 and not compose(p1, p2) in g:
                return False
''')],
 demo='''
from lie_nn._src.discrete_groups import perm
c = (1, 2, 3, 0)
assert not perm.is_group({(0, 1, 2, 3), c, perm.inverse(c)})
assert perm.is_group(perm.germinate({c}))
c = (1, 2, 0)
assert perm.is_group({(0, 1, 2), c, perm.inverse(c)})
assert perm.is_group(perm.group(4))
''', needs="a set closed except for the square of an element of order at least four",
 breaks="{1, c, c^-1} with a 4-cycle c is accepted as a group."),

dict(id="round-small-imaginary", property="C21",
 edits=[("util.py", '''    if np.iscomplex(x).any():
        return''', '''    if not np.allclose(np.imag(x), 0.0, atol=1e-3):
        return''')],
 demo='''
from lie_nn._src.util import round_to_sqrt_rational as f
z = np.array([0.5 + 1j / 4000, -0.25 + 0j])
assert np.allclose(f(z), z, rtol=0, atol=1e-12), f(z)
assert np.allclose(f(np.array([0.5 + 0.5j])), 0.5 + 0.5j)
''', needs="a complex array all of whose imaginary parts are below 1e-3 and representable (e.g. 1/4000)",
 breaks="Small imaginary parts are rounded to zero although they are square roots of rationals within the bound."),

dict(id="zero-generator-no-constraint", property="C22",
 edits=[("util.py", '''    for x1, x2 in zip(X1, X2):
        # X1 @ S - S @ X2 = 0
''', '''    for x1, x2 in zip(X1, X2):
        if d1 > 1 and not np.any(x1):
            continue
        # X1 @ S - S @ X2 = 0
''')],
 demo='''
from lie_nn._src.util import infer_change_of_basis as f
X2 = np.array([[[0.0, 1.0], [-1.0, 0.0]]])
assert len(f(np.zeros((1, 2, 2)), X2)) == 0
assert len(f(X2, np.zeros((1, 2, 2)))) == 0
assert len(f(X2, X2)) == 2
''', needs="a matrix of more than one row that vanishes in the first set but not in the second",
 breaks="The equation 0 = S X2 is left out."),

dict(id="contradiction-two-indices", property="C18",
 edits=[("reduced_tensor_product.py", "            if len(subrepr_permutation(f, perm_repr)) == 1:\n", "            if len({p for _, p in subrepr_permutation(f, perm_repr)}) == 1:\n")],
 demo='''
r = lie.irreps.SO3(1)
from lie_nn import reduced_tensor_product_basis as f
assert f("ij=-ij", i=r, j=r).array.shape == (3, 3, 0)
assert f("ij=ji", i=r).array.shape == (3, 3, 6)
assert f("ij", i=r, j=r).array.shape == (3, 3, 9)
''', needs="a contradictory formula of two indices that contains no permutation but the identity (ij=-ij)",
 breaks="The contradictory sign is ignored and all tensors are returned."),

dict(id="product-order-partial", property="C14",
 edits=[("group_product.py", "return (rep1.rep1, rep1.rep2) < (rep2.rep1, rep2.rep2)", "return rep1.rep1 < rep2.rep1 or rep1.rep2 < rep2.rep2")],
 demo=P + '''
I = lie.irreps
a, b = TP(I.SU2(0), I.SO3(2)), TP(I.SU2(1), I.SO3(1))
assert a < b and not b < a
c = TP(I.SU2(0), I.SO3(1))
assert c < a and c < b and not a < c and not b < c
''', needs="two irreps of a product group whose factors are ordered in opposite ways",
 breaks="Each of the two irreps is smaller than the other: the order is not total and sorting is arbitrary."),

dict(id="o3-two-digit-label", property="C06",
 edits=[("irreps/o3_real.py", "        l = int(s[:-1])\n", "        l = int(s[0])\n")],
 demo='''
O3 = lie.irreps.O3
assert O3.from_string("2e") == O3(2, 1)
assert O3.from_string("10o") == O3(10, -1)
assert lie.ReducedRep.from_string("1x1o+3x12e", O3).irreps[1].rep == O3(12, 1)
''', needs="a label with two digits",
 breaks="12e is parsed as 1e."),

dict(id="real-type-ignores-discrete", property="C30",
 edits=[("real.py", '''    S = lie.infer_change_of_basis(rep, lie.conjugate(rep))
    return S.shape[0] > 0
''', '''    if np.allclose(rep.X.imag, 0):  # already explicitly real
        return True
    S = lie.infer_change_of_basis(rep, lie.conjugate(rep))
    return S.shape[0] > 0
''')],
 demo='''
from lie_nn._src.real import is_real
w = np.exp(2j * np.pi / 3)
assert not is_real(lie.GenericRep(np.zeros((0, 0, 0)), np.zeros((0, 1, 1)), np.array([[[w]]])))
assert is_real(lie.irreps.Z2(-1))
assert is_real(lie.irreps.SU2(1)) and is_real(lie.irreps.SO3(1))
''', needs="a representation with real continuous generators (or none) and complex discrete generators",
 breaks="Complex characters of finite groups are reported as real."),

dict(id="trivial-first-part", property="C10",
 edits=[("reduced_rep.py", '''        n = self.irreps[0].discrete_generators().shape[0]  # TODO: support empty irreps
        if n == 0:
            return np.empty((0, self.dim, self.dim))
        Xs = []
''', '''        n = self.irreps[0].discrete_generators().shape[0]  # TODO: support empty irreps
        if n == 0 or all(mul_ir.rep.is_trivial() for mul_ir in self.irreps[:1]):
            return np.stack([np.eye(self.dim)] * n) if n else np.empty((0, self.dim, self.dim))
        Xs = []
''')],
 demo='''
O3 = lie.irreps.O3
r = lie.ReducedRep.from_irreps([O3(0, 1), O3(1, -1)])
assert np.allclose(r.H[0], np.diag([1, -1, -1, -1]))
assert np.allclose(lie.ReducedRep.from_irreps([O3(0, 1), O3(0, 1)]).H[0], np.eye(2))
''', needs="a reduced sum that starts with the trivial irrep of a group with discrete generators",
 breaks="The discrete generators of the whole sum are taken to be the identity."),
]
