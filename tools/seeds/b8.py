SEEDS = [
dict(id="rounded-after-check", property="C23",
 edits=[("util.py", '''    algebra = round_fn(algebra)

    if check_algebra_vs_generators(algebra, X, rtol=rtol, atol=atol):
        return algebra
''', '''    if check_algebra_vs_generators(algebra, X, rtol=rtol, atol=atol):
        return round_fn(algebra)
''')],
 demo='''
X = 0.3 * lie.irreps.SO3(1).X
A = lie.infer_algebra_from_generators(X, round_fn=np.round) if hasattr(lie, "infer_algebra_from_generators") else lie.util.infer_algebra_from_generators(X, round_fn=np.round)
assert A is None or np.allclose(A @ X.reshape(3, 9), (np.einsum("aij,bjk->abik", X, X) - np.einsum("bij,ajk->abik", X, X)).reshape(3, 3, 9))
''', needs="a rounding function which moves the constants of the generators", breaks="Rounded constants that are not those of the generators are returned."),

dict(id="cartan-chain", property="C25",
 edits=[("lie_algebra_utils.py", '''            if i != j:
                C[i, j] =''', '''            if abs(i - j) == 1:  # neighbours in the Dynkin diagram
                C[i, j] =''')],
 demo='''
from lie_nn._src.lie_algebra_utils import structure_algebra
C = structure_algebra("D", 4)["CartanMatrix"]
assert C[1, 3] == -1 and C[3, 1] == -1, C
''', needs="the family D, whose diagram is not a chain", breaks="The entries of the Cartan matrix of the fork are zero."),

dict(id="copies-inside-vectors", property="C07",
 edits=[("tensor_product.py", '"ijsk,ur,vt->uivjrtsk"', '"ijsk,ur,vt->uivjrtks"')],
 demo='''
SU3 = lie.irreps.SU3
a = lie.MulIrrep(mul=1, rep=SU3((2, 1, 0)))
t = lie.tensor_product(a, a)
X = a.X
want = np.stack([np.kron(x, np.eye(8)) + np.kron(np.eye(8), x) for x in X])
assert np.allclose(t.X, want, atol=1e-5)
''', needs="multiples of irreps in whose product an irrep occurs more than once", breaks="The stored change of basis orders the copies of an irrep inside its vectors."),

dict(id="unitary-continuous-first", property="C13",
 edits=[("properties.py", '''    return H_unit and X_unit
''', '''    return X_unit if len(X) > 0 else H_unit
''')],
 demo='''
o = lie.irreps.O3(1, -1)
g = lie.GenericRep(A=o.A, X=np.zeros((3, 2, 2)), H=np.array([[[1.0, 1.0], [0.0, -1.0]]]))
assert not lie.is_unitary(g)
assert lie.is_unitary(lie.GenericRep.from_rep(o))
''', needs="a representation with unitary continuous and other discrete generators", breaks="The discrete generators are not looked at when there are continuous ones."),

dict(id="cluster-index-byte", property="C28",
 edits=[("util.py", "    inverses = -1 * np.ones(len(a), dtype=int)\n", "    inverses = np.full(len(a), -1, dtype=np.int8)\n")],
 demo='''
c, i = lie.util.unique_with_tol(np.arange(150.0), tol=0.1)
assert len(c) == 150 and list(i) == list(range(150))
''', needs="more than 128 clusters", breaks="The index of a cluster does not fit."),
]
