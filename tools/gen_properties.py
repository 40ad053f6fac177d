#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
S = "lie_nn/_src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
                     state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
                     mechanism=[dict(name=a, where=S + b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

IR = ["irreps/su2.py", "irreps/su2_real.py", "irreps/so3_real.py", "irreps/o3_real.py", "irreps/sl2c.py", "irreps/so13.py", "irreps/sun.py", "irreps/z2.py"]

prop("C01", "Tabulated irreps obey their group's commutation relations",
 "For every irrep label of every tabulated group, the continuous generators satisfy [X_i, X_j] = sum_k A_ijk X_k with the structure constants the irrep itself reports. Those structure constants are antisymmetric, satisfy the Jacobi identity and are identical for all irreps of one group; discrete generators are involutions that commute with every continuous generator.",
 ["inputs"], "all labels of SU2, SU2Real, SO3, O3, SL2C, SO13, SU(2), SU(3), SU(4), Z2",
 "The tests look at the first 7 labels each iterator yields; a formula that goes wrong from some weight, or only for one shape of label, is not sampled.",
 IR, [("generators and structure constants per group", f) for f in IR],
 observe=["TabulatedIrrep.continuous_generators()", "TabulatedIrrep.discrete_generators()", "TabulatedIrrep.algebra()"])

prop("C02", "An irrep's matrices realise exactly the representation its label names",
 "For every irrep label the reported dimension, the shapes of the generators and the joint spectrum of the generators are those of the irreducible representation with that highest weight and parity, so that no two labels give equivalent matrices. The generators of the compact groups are anti-Hermitian, and those of SO3, O3, SU2Real, Z2 and of the SO(1,3) irreps with equal labels are real arrays.",
 ["inputs"], "all labels of the tabulated groups",
 "No test relates the label to the matrices: conjugating a representation, or returning a different irrep of the same dimension, passes every commutation test.",
 IR, [("dimension formula and generator construction", f) for f in IR],
 observe=["dim", "continuous_generators()", "discrete_generators()"])

prop("C03", "The irrep product lists exactly the irreps inside the tensor product",
 "For any two irreps of one tabulated group, multiplying them yields each irrep that occurs in their tensor product exactly once and no other irrep. For the complex-type tables the listed irreps, weighted by their multiplicities, account for the whole dimension of the tensor product.",
 ["inputs"], "all pairs of labels of one group, including direct products of groups",
 "The selection-rule test compares the rule with the coefficient tables of the same library on the first 4 labels of each group; neither is compared with an independent decomposition.",
 IR + ["group_product.py"], [("selection rules", f) for f in IR] + [("product groups", "group_product.py")],
 observe=["ir1 * ir2"])

prop("C04", "Clebsch-Gordan coefficients intertwine the two actions",
 "For any three irreps of one tabulated group or of a direct product of tabulated groups, every solution in the Clebsch-Gordan array commutes with the group action: coupling the transformed vectors equals transforming the coupled vector, for every continuous and every discrete generator. The same holds for coefficients computed for arbitrary (reducible, basis-changed, multi-copy) representations.",
 ["inputs"], "all label triplets of a group; all triples of general representations of one group",
 "Only triplets among the first 4 labels of each group are tried; none of them has a repeated weight or an outer multiplicity for SU(3)/SU(4), and discrete generators are never checked.",
 IR + ["clebsch_gordan.py", "group_product.py", "infer_change_of_basis.py"],
 [("tabulated coefficients", "irreps/su2.py"), ("SU(N) coefficients by lowering from the highest weight", "irreps/sun.py"), ("real coefficients by basis change", "irreps/so3_real.py"), ("generic coefficients", "clebsch_gordan.py"), ("factorised coefficients", "group_product.py")],
 observe=["clebsch_gordan(rep1, rep2, rep3)"])

prop("C05", "Clebsch-Gordan solutions are complete, independent and normalised",
 "The Clebsch-Gordan array of three representations has exactly as many solutions as there are independent equivariant couplings (none when the third does not occur), with shape (solutions, d1, d2, d3), and the solutions are linearly independent. For irreps of the compact complex-type tables (SU2, SO3, O3, SL2C, SU(N), Z2 and products of them) all coefficients of one product together form a unitary matrix.",
 ["inputs"], "all label pairs and triplets",
 "Tests check only that the count is zero or positive; completeness, independence of several solutions and the joint unitarity are never examined.",
 IR + ["clebsch_gordan.py", "group_product.py"],
 [("tabulated coefficients", f) for f in ["irreps/su2.py", "irreps/so3_real.py", "irreps/sl2c.py", "irreps/sun.py"]] + [("nullspace based coefficients", "clebsch_gordan.py")],
 observe=["clebsch_gordan(rep1, rep2, rep3)"])

prop("C06", "Irrep enumeration, ordering and parsing agree with each other",
 "Each group's iterator starts with the trivial irrep, is strictly increasing in the irreps' order, never repeats and reaches every label; the order is a strict total order compatible with equality and hashing. Parsing the textual form of an irrep, of a multiple and of a sum of multiples gives exactly the labels and multiplicities written, in the order written. Irreps are immutable values: their fields cannot be changed, and copies and pickled irreps equal the original.",
 ["inputs", "histories"], "all prefixes of the iterators, all pairs/triples of labels, all strings of the grammar",
 "The tests check the order of 10 consecutive labels per group and one parsed string.",
 IR + ["irrep.py", "reduced_rep.py", "group_product.py"],
 [("iterator / __lt__ / from_string", f) for f in IR] + [("sum and multiple parsing", "reduced_rep.py")],
 observe=["iterator()", "<", "==", "hash", "from_string", "copy / pickle"])

prop("C07", "Tensor products act as the Kronecker product, whatever the operand kinds",
 "For any two representations of one group, whatever combination of irrep, multiple of an irrep, reduced sum (with or without a change of basis) and generic representation they are, the tensor product has the same structure constants, continuous generators X1(x)1 + 1(x)X2 and discrete generators H1(x)H2, with the first operand as the slow index.",
 ["inputs", "programs"], "all pairs of representations built by any sequence of library operations",
 "One test compares X for sums of irreps without a change of basis, both operands of the same kind; the mixed-kind cases, change of basis and the discrete generators are not compared.",
 ["tensor_product.py", "reduced_rep.py"], [("eight overloads of tensor_product", "tensor_product.py")],
 observe=["tensor_product(rep1, rep2).X/.H/.A"])

prop("C08", "Tensor products of reduced representations list the right irreps",
 "Tensor products and tensor powers of irreps, multiples and reduced sums stay in reduced form, and the irreps and multiplicities they list are exactly the decomposition of the product of the operands' contents. The listed content together with the stored change of basis reproduces the generators.",
 ["inputs", "programs"], "all reduced operands, all nesting of products",
 "Tests check two result types and no list of irreps.",
 ["tensor_product.py", "reduced_rep.py"], [("tensor_product on irreps / multiples / sums", "tensor_product.py")],
 observe=["ReducedRep.irreps", "ReducedRep.Q", "ReducedRep.X"])

prop("C09", "Tensor powers equal the iterated Kronecker product for every exponent",
 "For every representation and every n >= 0, the n-th tensor power has dimension dim^n and the generators of the n-fold Kronecker product; the 0-th power is the trivial representation with as many generators as the original and the first power has the generators of the representation itself.",
 ["inputs"], "all n, all kinds of representation",
 "Tests check only the result type for n = 2.",
 ["tensor_product.py", "rep.py", "irrep.py"], [("square-and-multiply loop", "tensor_product.py"), ("trivial representation", "rep.py")],
 observe=["tensor_power(rep, n)"])

prop("C10", "Direct sums, multiples and reduced sums are block diagonal",
 "The direct sum of two representations, a multiple m x rep (m >= 0) and a reduced sum have as generators the block-diagonal matrices of their parts in the order given (conjugated by the stored change of basis), with the parts' structure constants and the summed dimension. This includes groups with no continuous or no discrete generators and parts of multiplicity zero.",
 ["inputs", "programs"], "all lists of parts and multiplicities of one group",
 "No test compares the generators of a sum with its parts.",
 ["direct_sum.py", "reduced_rep.py", "util.py"], [("block assembly", "util.py"), ("multiples and sums", "reduced_rep.py"), ("direct sum", "direct_sum.py")],
 observe=["direct_sum", "MulIrrep.X/.H", "ReducedRep.X/.H"])

prop("C11", "A change of basis conjugates every generator and composes",
 "Changing the basis of any kind of representation by an invertible Q turns every continuous and discrete generator Y into Q Y Q^-1 and leaves the structure constants alone. Changing by Q1 and then by Q2 equals changing by Q2 Q1, and changing by Q and then by Q^-1 gives back the original generators.",
 ["inputs", "histories"], "all representations, all invertible Q, all sequences of changes",
 "Tests use change_basis as a tool on fresh irreps only; repeated changes and discrete generators are not compared.",
 ["change_basis.py", "reduced_rep.py"], [("four overloads of change_basis", "change_basis.py")],
 observe=["change_basis(rep, Q).X/.H/.A"])

prop("C12", "A change of Lie-algebra basis transforms generators and constants alike",
 "Replacing the basis of the Lie algebra by an invertible Q gives generators X'_i = sum_a Q_ia X_a and structure constants transformed so that the new generators satisfy them, with discrete generators unchanged. Doing it with Q1 then Q2 equals doing it with Q2 Q1.",
 ["inputs", "histories"], "all representations, all invertible Q (including non-orthogonal)",
 "One 3x3 matrix is tried.",
 ["change_algebra.py"], [("change_algebra", "change_algebra.py")], observe=["change_algebra(rep, Q)"])

prop("C13", "Conjugation and the unitarity test are exact",
 "The conjugate of a representation has entrywise conjugated generators and satisfies the same structure constants; conjugating twice gives the original back and commutes with sums and products. A representation is reported unitary exactly when its continuous generators are anti-Hermitian and its discrete generators are unitary.",
 ["inputs"], "all representations with real structure constants",
 "No test calls either function.",
 ["conjugate.py", "properties.py"], [("conjugate", "conjugate.py"), ("is_unitary", "properties.py")], observe=["conjugate(rep)", "is_unitary(rep)"])

prop("C14", "Group products act factor by factor",
 "The product of representations of two or three groups has the concatenated generators (each acting on its own tensor factor, first factor slow), the block structure constants, and the product dimension. For tabulated irreps the result is an irrep of the product group whose product rule, order, trivial irrep and coupling coefficients are those of the factors combined.",
 ["inputs"], "all pairs and triples of representations, of equal or different groups",
 "Two small examples are checked for commutation relations; generators are not compared with the factors.",
 ["group_product.py"], [("generic product", "group_product.py"), ("tabulated product", "group_product.py")],
 observe=["group_product(...)"])

prop("C15", "The inferred intertwiners are exactly the equivariant maps",
 "The matrices returned as changes of basis between two representations all satisfy Q rho1 = rho2 Q for every continuous and discrete generator, are linearly independent, and span the whole space of such maps: their number is the sum over common irreps of the products of multiplicities (zero when there is none). A representation of a compact or finite group is reported irreducible exactly when the only self-intertwiners are scalars.",
 ["inputs"], "all pairs of representations of one group in any well-conditioned basis",
 "Tests try two 3-dimensional equivalent irreps, where the space is one-dimensional.",
 ["infer_change_of_basis.py", "is_irreducible.py", "util.py"], [("nullspace of the intertwining equations", "util.py"), ("normalisation and verification", "infer_change_of_basis.py")],
 observe=["infer_change_of_basis(rep1, rep2)", "is_irreducible(rep)"])

prop("C16", "Reducing a representation preserves it and yields irreducibles",
 "Reducing a completely reducible representation gives a reduced form whose parts are irreducible, pairwise inequivalent or collected, and whose content is the decomposition of the input; its generators equal those of the input. This holds for repeated irreps, complex and real, unitary and non-unitary bases.",
 ["inputs"], "all completely reducible representations in well-conditioned bases",
 "The only test is excluded from the baseline because it is flaky, and has no repeated irrep.",
 ["reduce.py", "util.py"], [("random commutant element", "util.py"), ("assembly of the change of basis", "reduce.py")],
 observe=["reduce(rep)"])

prop("C17", "Symmetry-reduced tensor bases are equivariant",
 "The array returned for a tensor product of representations with a permutation symmetry intertwines: contracting it with transformed input vectors equals transforming the contracted output with the returned representation. This holds for every formula, any representations on the indices (including reducible ones with a change of basis) and for the list and fully symmetric forms.",
 ["inputs"], "all formulas, orders and index representations",
 "One fully symmetric order-3 SO3 example is checked.",
 ["reduced_tensor_product.py", "util.py"], [("pairwise coupling and symmetry constraint", "reduced_tensor_product.py"), ("subspace intersection", "util.py")],
 observe=["reduced_tensor_product_basis", "reduced_symmetric_tensor_product_basis"])

prop("C18", "Symmetry-reduced tensor bases span exactly the symmetric tensors",
 "Every tensor of the returned basis has the signed permutation symmetry the formula generates, the basis is linearly independent, and its irreps and multiplicities are exactly those of the space of all tensors with that symmetry (possibly none at all). A contradictory or antisymmetric formula without solutions gives an empty result rather than an error or spurious tensors.",
 ["inputs"], "all formulas (signed permutation generators) and index representations of groups with tabulated irreps (half-integer real SU2 irreps, whose type is quaternionic, excepted)",
 "No test checks the permutation symmetry or the number of tensors.",
 ["reduced_tensor_product.py", "discrete_groups/perm.py"], [("formula to signed permutation group", "reduced_tensor_product.py"), ("orbits of index tuples", "reduced_tensor_product.py")],
 observe=["reduced_tensor_product_basis", "reduced_symmetric_tensor_product_basis"])

prop("C19", "The exponential map is the group representation the generators define",
 "For any representation, the matrix for continuous parameters t and integer discrete parameters k is H_1^k1 ... H_m^km exp(sum_a t_a X_a): it is the identity at zero, obeys the one-parameter group law, has the generators as derivatives, and turns tensor products into Kronecker products and direct sums into blocks. The NumPy and the JAX implementation agree.",
 ["inputs"], "all representations, real parameters and integer discrete powers",
 "One test uses the NumPy version at one parameter; the JAX version and discrete parameters are never called.",
 ["rep.py", "jax_utils.py"], [("exp_map", "rep.py"), ("exp_map and matrix_power", "jax_utils.py")], observe=["Rep.exp_map", "jax_utils.exp_map", "jax_utils.matrix_power"])

prop("C20", "Permutation utilities implement the symmetric group",
 "Composition, inverse, identity, cycle decomposition and sign obey the group laws (sign is a homomorphism, cycles are disjoint, canonical and reconstruct the permutation); numbering permutations is a bijection with 0..n!-1 inverse to its decoding. Generating from a set of permutations gives the smallest group containing them, and the group test accepts exactly the sets closed under composition and inverse that contain the identity.",
 ["inputs", "histories"], "all permutations of n points, all subsets",
 "The permutation module has no tests.",
 ["discrete_groups/perm.py", "util.py"], [("permutation arithmetic", "discrete_groups/perm.py"), ("inversion-count sign", "util.py")],
 observe=["perm.compose/inverse/sign/to_cycles/from_int/to_int/group/germinate/is_group", "util.permutation_sign"])

prop("C21", "Rational rounding returns the best bounded approximation",
 "Limiting the denominator of a reduced fraction returns a reduced fraction with a denominator within the bound that is at least as close to the input as any other such fraction, with the input itself when it qualifies; converting floats to integer ratios is accurate to rounding and reduced, with a positive denominator. Rounding to a signed square root of a rational preserves zeros, signs and shape, treats real and imaginary parts independently, is idempotent and fixes every sign*sqrt(n/d) with small n and d.",
 ["inputs"], "all fractions and bounds, all floats in range, scalars and arrays of any shape",
 "Tests sample random fractions with the default bound; small bounds, ties, mixed arrays and complex input are not sampled.",
 ["util.py"], [("as_approx_integer_ratio, limit_denominator, round_to_sqrt_rational", "util.py")],
 observe=["util.as_approx_integer_ratio", "util.limit_denominator", "util.round_to_sqrt_rational", "util.round_to_sqrt_rational_sympy"])

prop("C22", "Subspace tools return orthonormal bases of the right subspaces",
 "For real and complex matrices: orthogonalisation keeps the row space and drops dependent rows; the nullspace (direct or accumulated over a list of constraints) has orthonormal rows annihilated by the matrix and the complementary dimension; basis extension completes the rows to the full space; intersection returns coordinates of exactly the common subspace in both bases. Solving X1 S = S X2 for sets of matrices returns orthonormal solutions spanning all of them.",
 ["inputs"], "all matrices of moderate size and condition, including rank-deficient, empty and complex ones",
 "One random nullspace and one doctest intersection are tested.",
 ["util.py"], [("gram_schmidt, extend_basis, nullspace, sequential_nullspace, basis_intersection, infer_change_of_basis", "util.py")],
 observe=["util.gram_schmidt", "util.extend_basis", "util.nullspace", "util.sequential_nullspace", "util.basis_intersection"])

prop("C23", "Algebra inference and validity checks accept exactly what is valid",
 "From linearly independent generators that close under commutation with real constants the inferred structure constants are those of the generators; generators that do not close are refused. The check of constants against generators, and the check of a triplet of representations, succeed exactly when the relations hold.",
 ["inputs"], "all sets of generators, correct or perturbed in a single entry",
 "Tests only feed valid representations, so a check that always passes is not noticed.",
 ["util.py", "rep.py"], [("check_algebra_vs_generators, infer_algebra_from_generators", "util.py"), ("check_representation_triplet, from_generators", "rep.py")],
 observe=["util.infer_algebra_from_generators", "util.check_algebra_vs_generators", "GenericRep.from_generators", "check_representation_triplet"])

prop("C24", "Finite-group representations satisfy their groups' relations",
 "For every n the natural, standard and trivial representations of the symmetric group send the transposition and the long cycle to matrices satisfying the group's defining relations, with permutation matrices for the natural one, the documented difference basis for the standard one, and natural = trivial + standard. The regular representation of any group table is the left multiplication homomorphism.",
 ["inputs"], "all n, all finite group multiplication tables",
 "Nothing in finite.py or the regular representation is tested.",
 ["finite.py", "util.py"], [("Sn_natural, Sn_standard, Sn_trivial", "finite.py"), ("regular_representation", "util.py")],
 observe=["finite.Sn_*", "util.regular_representation"])

prop("C25", "Root-system data and dimensions of the classical algebras are correct",
 "For the families A, B, C and D at every rank >= 2 the simple roots, positive roots, fundamental weights, highest root, Weyl vector, Cartan matrix and Coxeter number are those of the root system: the positive roots are the root system's positive half, fundamental weights are dual to the simple coroots. The dimension reported for a Dynkin label of an orthogonal or symplectic irrep is the exact Weyl dimension, and the defining matrices generated for so(n) preserve the split symmetric form and close under commutation.",
 ["inputs"], "all ranks and Dynkin labels",
 "None of these files has a test.",
 ["lie_algebra_utils.py", "irreps/son.py", "irreps/spn.py"], [("RootsWeights*, weyl_dim, cartan_matrix, structure_algebra", "lie_algebra_utils.py"), ("SON.dim, SON_adjoint", "irreps/son.py"), ("SPN.dim", "irreps/spn.py")],
 observe=["structure_algebra(group, rank)", "SON(S).dim", "SPN(S).dim", "SON_adjoint(n)"])

prop("C26", "The SU(N) pattern basis is enumerated and acted on consistently",
 "For every highest weight, the triangular patterns enumerated are exactly the interleaving ones, each once, in an order inverse to the index function, and as many as the dimension formula says. Ladder and weight operators act on this basis with the textbook coefficients: raising and lowering are mutually transposed, shift the pattern weight by a simple root, and satisfy the su(2) and Serre relations.",
 ["inputs"], "all highest weights of SU(N), N = 1..4 and beyond",
 "Tests check ten highest weights, mostly for SU(2).",
 ["irreps/sun.py"], [("patterns, indices, ladder operators", "irreps/sun.py")],
 observe=["S_to_Ms, index_to_M, M_to_index, dim, M_to_p_weight, M_to_z_weight, upper_ladder_matrices, lower_ladder_matrices, Jz_matrices"])

prop("C27", "Operations neither change their arguments nor depend on history",
 "No library call changes the representations, arrays or lists it is given, and values obtained from earlier calls never change because of later calls. Calling a function again with equal arguments, at any point of any history of calls (also after the caller has overwritten arrays that earlier calls returned) and in a fresh process, gives an equal result, up to the choices of basis and order that reducing a representation draws at random.",
 ["histories", "programs"], "all sequences of library calls; arrays returned by functions and by tabulated irreps",
 "Each test makes a few calls on fresh objects; cached or shared arrays only go wrong across calls.",
 ["reduced_tensor_product.py", "change_basis.py", "tensor_product.py", "reduced_rep.py", "util.py", "irreps/so13.py"],
 [("cached permutation data", "reduced_tensor_product.py"), ("in-place generator edits on private copies", "irreps/so13.py"), ("in-place orthogonalisation on copies", "util.py")],
 observe=["every public function"])

prop("C28", "Array helpers compute the documented array operations",
 "The mapping helper equals stacking the function over the chosen axes (including tuple results, broadcast arguments and empty axes); Kronecker product, direct sum and block diagonal place every block where documented for any number of operands, dtypes and leading axes; the commutator is AB - BA; grouping with tolerance assigns each element to the cluster of equal elements in first-seen order and returns the cluster means, and eigenvectors are grouped accordingly.",
 ["inputs"], "all shapes, axes, operand counts, real and complex entries",
 "No test calls these helpers directly.",
 ["util.py"], [("vmap, kron, direct_sum, block_diagonal, commutator, unique_with_tol", "util.py")],
 observe=["util.vmap", "util.kron", "util.direct_sum", "util.block_diagonal", "util.commutator", "util.unique_with_tol", "util.eigenspaces"])

prop("C29", "Trivial representations are trivial and neutral",
 "The trivial representation created from any representation belongs to the same group (same structure constants, same numbers of generators), is one-dimensional with zero continuous and unit discrete generators, and is recognised as trivial; no non-trivial representation is. Tensoring with it on either side leaves the generators unchanged.",
 ["inputs", "programs"], "all representations of all kinds",
 "Only the iterators' first irreps are tested.",
 ["rep.py", "irrep.py", "reduced_rep.py", "finite.py", "group_product.py"], [("create_trivial / is_trivial", "rep.py"), ("create_trivial", "irrep.py"), ("create_trivial", "reduced_rep.py"), ("create_trivial", "finite.py")],
 observe=["create_trivial()", "is_trivial()"])

prop("C30", "Reality test and real form are correct",
 "An irreducible representation is reported as self-conjugate exactly when it is equivalent to its conjugate. For a unitary irreducible representation of real type in any unitary basis, the explicitly real form has real generators, continuous and discrete, satisfies the same structure constants and is equivalent to the original; for complex or quaternionic type it is refused.",
 ["inputs"], "all unitary irreps, all unitary bases",
 "No test calls these functions.",
 ["real.py", "infer_change_of_basis.py"], [("is_real, make_explicitly_real", "real.py")], observe=["is_real(rep)", "make_explicitly_real(rep)"])

prop("C31", "Operands that do not belong together are refused",
 "Tensor products, direct sums, reduced sums and the inference of a change of basis refuse operands whose structure constants or numbers of discrete generators differ, for all kinds of operands in either order, and accept generic operands where they agree. Symmetry-reduced products refuse formulas whose terms are not signed permutations of the first one, indices without a representation or outside the formula, and different representations on indices that the formula exchanges. Labels outside the domain of SU2, SU2Real, SL2C, SO13, SU(N) and of its special cases SU(2), SU(3), SU(4) cannot be constructed.",
 ["inputs"], "all pairs of representations of different or differently parametrised groups, all formulas, all labels",
 "No test passes invalid operands.",
 ["tensor_product.py", "direct_sum.py", "reduced_rep.py", "infer_change_of_basis.py", "reduced_tensor_product.py", "irreps/su2.py", "irreps/su2_real.py", "irreps/sl2c.py", "irreps/so13.py", "irreps/sun.py"],
 [("comparison of the structure constants", f) for f in ("tensor_product.py", "direct_sum.py", "reduced_rep.py", "infer_change_of_basis.py")] + [("validation of formulas", "reduced_tensor_product.py"), ("validation of labels", "irreps/sun.py")],
 observe=["tensor_product", "direct_sum", "ReducedRep.from_irreps", "infer_change_of_basis", "reduced_tensor_product_basis", "constructors of irreps"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
