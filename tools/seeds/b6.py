SEEDS = [
dict(id="highest-weight-prefix", property="C05",
 edits=[("irreps/sun.py", '''            if tuple(map(add, W_1, W_2)) != W_eldest:
''', '''            if tuple(map(add, W_1, W_2))[:3] != W_eldest[:3]:
''')],
 demo='''
from lie_nn._src.irreps.sun import SUN
a, b = SUN((1, 0, 0, 0, 0)), SUN((1, 1, 1, 1, 0))
n = [(c, lie.clebsch_gordan(a, b, c).shape) for c in a * b]
assert all(s[0] == 1 for _, s in n), n
a = SUN((1, 1, 0, 0, 0))
n = [(c, lie.clebsch_gordan(a, a, c).shape) for c in a * a if c.dim < 40]
assert all(s[0] == 1 for _, s in n), n
t = SUN((0, 0, 0, 0, 0))
assert lie.clebsch_gordan(a, a, t).shape[0] == 0
a = SUN((1, 0, 0, 0, 0))
assert lie.clebsch_gordan(a, a, t).shape[0] == 0
''', needs="SU(5) or larger, coupling two irreps to one that does not occur in their product", breaks="Only the first three entries of the weights are compared."),

dict(id="far-ladder-sign", property="C01",
 edits=[("irreps/sun.py", '''    if k > l:
        return commutator(Jm[k - 1], E_basis(k - 1, l, Jp, Jm))
''', '''    if k > l + 3:
        return commutator(E_basis(k - 1, l, Jp, Jm), Jm[k - 1])
    if k > l:
        return commutator(Jm[k - 1], E_basis(k - 1, l, Jp, Jm))
''')],
 demo='''
from lie_nn._src.irreps.sun import SUN
for S in ((1, 0, 0, 0, 0), (1, 1, 0, 0, 0)):
    r = SUN(S)
    assert np.allclose(r.X, -np.conj(np.swapaxes(r.X, 1, 2)))
    r.check_algebra_vs_generators()
assert np.allclose(SUN((1, 1, 1, 1, 0)).A, -np.swapaxes(SUN((1, 1, 1, 1, 0)).A, 0, 1))
''', needs="SU(5) or larger (a root of height four)", breaks="A root vector gets the wrong sign, two generators are Hermitian."),

dict(id="exp-involutions", property="C19",
 edits=[("rep.py", '''            output = np.linalg.matrix_power(h, k) @ output
''', '''            output = h @ output if k % 2 else output
''')],
 demo='''
from lie_nn.finite import Sn_natural
r = Sn_natural(4)
z = np.zeros(0)
a, b = r.H
for k in range(-4, 5):
    assert np.allclose(r.exp_map(z, np.array([0, k])), np.linalg.matrix_power(b, k)), k
s = lie.irreps.O3(1, -1)
assert np.allclose(s.exp_map(np.zeros(3), np.array([3])), -np.eye(3))
''', needs="a group with a discrete generator that is not an involution", breaks="Powers of discrete generators are taken modulo two."),

dict(id="ladder-few-columns", property="C26",
 edits=[("irreps/sun.py", '''    return sum(compute_coeff_upper(M, l, k) for k in range(n - l) if M_add_at_lk(M, l, k, 1) == N)
''', '''    return sum(
        compute_coeff_upper(M, l, k) for k in range(min(n - l, 3)) if M_add_at_lk(M, l, k, 1) == N
    )
''')],
 demo='''
from lie_nn._src.irreps import sun
for S in ((1, 0, 0, 0), (2, 1, 0), (1, 1, 1, 1, 0), (2, 1, 1, 1, 0)):
    assert np.allclose(sun.upper_ladder_matrices(S), np.swapaxes(sun.lower_ladder_matrices(S), 1, 2)), S
''', needs="SU(5) or larger with a weight that allows a change in the fourth column", breaks="Raising ignores the columns from the fourth on."),

dict(id="multiple-discrete-order", property="C10",
 edits=[("reduced_rep.py", '''        return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in H], axis=0)
''', '''        return np.stack([np.kron(x, np.eye(self.mul)) for x in H], axis=0)
''')],
 demo='''
from lie_nn.finite import Sn_standard
r = Sn_standard(3)
m = lie.MulIrrep(2, r)
assert np.allclose(m.H[1][:2, :2], r.H[1]) and np.allclose(m.H[1][2:, 2:], r.H[1]) and np.allclose(m.H[1][:2, 2:], 0)
assert np.allclose(lie.MulIrrep(3, lie.irreps.O3(1, -1)).H, -np.eye(9))
''', needs="a multiple of a representation whose discrete generators are not multiples of the identity", breaks="The copies are interleaved for the discrete generators only."),

dict(id="jax-short-scan", property="C19",
 edits=[("jax_utils.py", '''    upper_limit = 32
''', '''    upper_limit = 4
''')],
 demo='''
import jax.numpy as jnp
from lie_nn._src import jax_utils
from lie_nn.finite import Sn_natural
r = Sn_natural(5)
for k in (0, 1, 7, 15, 16, 17, 33):
    m = jax_utils.exp_map(r, jnp.zeros(0), jnp.array([0, k]))
    assert np.allclose(m, np.linalg.matrix_power(r.H[1], k)), k
''', needs="JAX exponential with a discrete parameter of 17 or more (in absolute value)", breaks="Only the four lowest bits of a discrete parameter are used."),

]
