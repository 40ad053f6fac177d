SEEDS = [
dict(id="exp-by-eigenvectors", property="C19",
 edits=[("rep.py", '''        output = scipy.linalg.expm(
            np.einsum("a,aij->ij", continuous_params, self.continuous_generators())
        )
''', '''        M = np.einsum("a,aij->ij", continuous_params, self.continuous_generators())
        w, v = np.linalg.eig(M)
        if np.linalg.matrix_rank(v) == len(w):  # diagonalizable
            output = v @ np.diag(np.exp(w)) @ np.linalg.inv(v)
            output = output.real if np.isrealobj(M) else output
        else:
            output = np.eye(len(M)) + M
''')],
 demo='''
import scipy.linalg
X = np.zeros((3, 3, 3)); X[0, 0, 1] = 1; X[1, 1, 2] = 1; X[2, 0, 2] = 1
r = lie.GenericRep.from_generators(X)
t = np.array([1.0, 2.0, 0.5])
assert np.allclose(r.exp_map(t, np.zeros(0, int)), scipy.linalg.expm(np.einsum("a,aij->ij", t, X)))
s = lie.irreps.SU2(2)
t = np.array([0.3, 0.2, 0.5])
assert np.allclose(s.exp_map(t, np.zeros(0, int)), scipy.linalg.expm(np.einsum("a,aij->ij", t, s.X)))
''', needs="a combination of the generators that cannot be diagonalised and whose square does not vanish (unipotent elements)",
 breaks="The exponential of nilpotent generators is cut after the linear term."),

dict(id="closure-two-passes", property="C18",
 edits=[("reduced_tensor_product.py", '''    while True:
        n = len(perm_repr)
        perm_repr = perm_repr.union([(s, perm.inverse(p)) for s, p in perm_repr])
''', '''    for _ in range(2):
        n = len(perm_repr)
        perm_repr = perm_repr.union([(s, perm.inverse(p)) for s, p in perm_repr])
''')],
 demo='''
import itertools
for f in ("ijkl=-ijlk=jkil", "ijkl=-klij=kjli", "ijkl=-lijk=jikl"):  # contradictory: nothing is left
    r = lie.reduced_tensor_product_basis(f, i=lie.irreps.SU2(1))
    assert r.array.shape == (2, 2, 2, 2, 0), (f, r.array.shape)
''', needs="a formula whose generators need words of more than four letters to generate the group",
 breaks="The group generated by a formula is not closed completely."),

dict(id="reduced-near-unitary-inverse", property="C10",
 edits=[("reduced_rep.py", '''            X = direct_sum(*[mul_ir.continuous_generators()[i] for mul_ir in self.irreps])
            if self.Q is not None:
                X = self.Q @ X @ np.linalg.inv(self.Q)
''', '''            X = direct_sum(*[mul_ir.continuous_generators()[i] for mul_ir in self.irreps])
            if self.Q is not None:
                iQ = np.conj(self.Q.T)  # cheaper and more accurate for unitary matrices
                if not np.allclose(self.Q @ iQ, np.eye(self.dim)):
                    iQ = np.linalg.inv(self.Q)
                X = self.Q @ X @ iQ
''')],
 demo='''
r = lie.ReducedRep.from_irreps([(1, lie.irreps.SU2(1)), (1, lie.irreps.SU2(1))], None)
N = np.random.default_rng(0).normal(size=(4, 4))
Q = np.eye(4) + 1e-9 * N
r = lie.change_basis(r, Q)
X0 = lie.ReducedRep.from_irreps([(2, lie.irreps.SU2(1))]).X
d = (r.X - X0) / 1e-9
assert np.allclose(d, N @ X0 - X0 @ N, atol=1e-4)
''', needs="a stored change of basis that is unitary up to 1e-8 but not exactly (derivatives with respect to the basis, or many small steps)",
 breaks="The adjoint is used for the inverse of a change of basis that is only nearly unitary."),

dict(id="reduce-fixed-weights", property="C16",
 edits=[("util.py", '''    w = np.random.rand(len(Q))
''', '''    w = np.cos(np.arange(len(Q)) // 2)  # reproducible
''')],
 demo='''
from lie_nn._src.util import decompose_rep_into_irreps
a = lie.GenericRep.from_rep(lie.irreps.SU2(1))
for k in (2, 3, 4, 5):
    r = a
    for _ in range(k - 1):
        r = lie.direct_sum(r, a)
    red = lie.reduce(r)
    assert [(m.mul, m.rep.dim) for m in red.irreps] == [(k, 2)], red
b = lie.GenericRep.from_rep(lie.irreps.SL2C(1, 0))
c = lie.GenericRep.from_rep(lie.irreps.SL2C(0, 1))
d = lie.GenericRep.from_rep(lie.irreps.SL2C(0, 0))
red = lie.reduce(lie.direct_sum(b, c))
assert sorted((m.mul, m.rep.dim) for m in red.irreps) == [(1, 2), (1, 2)], red
''', needs="two inequivalent irreps of equal dimension, in separate blocks",
 breaks="The weights of the element of the commutant are fixed, so inequivalent parts can get the same eigenvalue and stay together."),

dict(id="permutation-with-gaps", property="C20",
 edits=[("discrete_groups/perm.py", '''    return sorted(set(p)) == list(range(len(p)))
''', '''    return set(p) == set(range(len(set(p))))
''')],
 demo='''
from lie_nn._src.discrete_groups import perm
assert perm.is_perm((1, 0, 2)) and perm.is_perm(())
assert not perm.is_perm((0, 0, 1))
assert not perm.is_perm((0, 2))
''', needs="a tuple with repeated entries without gaps, such as (0, 0, 1)",
 breaks="Maps that are not injective pass for permutations."),

dict(id="power-keeps-order", property="C09",
 edits=[("tensor_product.py", '''        n >>= 1

        if n == 0:
            return result
        rep = tensor_product(rep, rep)
''', '''        n >>= 1

        if n == 0:
            return result
        rep = tensor_product(rep, rep) if n < 4 else _cut(tensor_product(rep, rep))
'''), ("tensor_product.py", '''# @dispatch(Rep, int)
def tensor_power(''', '''def _cut(rep: Rep) -> Rep:
    # keep high powers sparse
    if isinstance(rep, GenericRep):
        return GenericRep(rep.A, np.where(np.abs(rep.X) < 1e-3, 0, rep.X), rep.H)
    return rep


# @dispatch(Rep, int)
def tensor_power(''')],
 demo='''
X = np.array([[[0.0001j]]])
r = lie.GenericRep(np.zeros((1, 1, 1)), X, np.zeros((0, 1, 1)))
for n in range(14):
    assert np.allclose(lie.tensor_power(r, n).X, n * X, rtol=1e-9, atol=0), n
''', needs="a generic representation with entries below 1e-3 and an exponent of at least eight",
 breaks="Small entries are removed from high powers."),

dict(id="so13-shared-generators", property="C27",
 edits=[("irreps/so13.py", '''    def continuous_generators(rep: "SO13") -> np.ndarray:
        X = SL2C(rep.l, rep.k).continuous_generators().copy()
''', '''    def continuous_generators(rep: "SO13") -> np.ndarray:
        if (rep.l, rep.k) not in _GENERATORS:
            _GENERATORS[(rep.l, rep.k)] = rep._continuous_generators()
        return _GENERATORS[(rep.l, rep.k)]

    def _continuous_generators(rep: "SO13") -> np.ndarray:
        X = SL2C(rep.l, rep.k).continuous_generators().copy()
'''), ("irreps/so13.py", '''from .sl2c import SL2C

''', '''from .sl2c import SL2C

_GENERATORS = {}

''')],
 demo='''
r = lie.irreps.SO13(1, 1)
X = r.continuous_generators()
Y = X.copy()
X *= 2
assert np.allclose(lie.irreps.SO13(1, 1).continuous_generators(), Y)
''', needs="generators of an SO(1,3) irrep that the caller changes in place, and a later call for the same label",
 breaks="Generators are cached and handed out without copying."),

dict(id="group-test-commuting", property="C24",
 edits=[("finite.py", '''            H_tr = np.zeros((self.n - 1, self.n - 1))
            H_tr[0, 0] = -1
            for i in range(1, self.n - 1):
                H_tr[i, i] = 1
                H_tr[0, i] = -1
''', '''            H_tr = np.eye(self.n - 1)
            H_tr[0, : min(self.n - 1, 8)] = -1
''')],
 demo='''
from lie_nn.finite import Sn_standard
for n in range(3, 14):
    t, c = Sn_standard(n).H
    assert np.allclose(np.linalg.matrix_power(c, n), np.eye(n - 1))
    assert np.allclose(t @ t, np.eye(n - 1))
    assert np.allclose(np.linalg.matrix_power(t @ c, n - 1), np.eye(n - 1)), n
''', needs="the standard representation of S_n with n at least 10",
 breaks="The transposition of the standard representation is wrong for many points."),
]
