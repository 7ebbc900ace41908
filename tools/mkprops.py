#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": observe} if observe else {}), "hook_needed": None}})

CM, QU, CL = "qldpc/codes/common.py", "qldpc/codes/quantum.py", "qldpc/codes/classical.py"
prop("C01", "Constructed stabilizer codes have commuting parity checks",
 "Every code that is built as a stabilizer code (not flagged as a subsystem code) has a parity check matrix H over its field whose rows commute pairwise in the symplectic inner product; for CSS codes Hx @ Hz.T = 0. "
 "This holds for generic constructors, hypergraph and lifted product codes, bicycle-type codes, toric/surface/color-type geometric codes, quantum Tanner codes, and for codes derived from others. "
 "When a code is built without saying whether it is a subsystem code, it is flagged as one exactly when some pair of its checks does not commute.",
 ["inputs", "configurations"],
 "every field GF(q), every pair of seed matrices/codes, every polynomial, lattice size and group algebra element over an Abelian group",
 "Tests build a few fixed small codes; the guarantee is an algebraic identity over all seed matrices, fields, shifts and sizes.",
 [QU, CM, "qldpc/math.py", "qldpc/objects.py"],
 [("symplectic_conjugate", "qldpc/math.py"), ("CSSCode.__init__ / QuditCode.__init__ flag", CM), ("HGPCode.get_matrix_product, LPCode, TBCode, BBCode, QCCode, SurfaceCode, ToricCode, QTCode", QU), ("ChainComplex.tensor_product", "qldpc/objects.py")])
prop("C02", "Logical, gauge and stabilizer operators form a symplectic basis",
 "For every CSS code and every stabilizer code, the returned logical operators commute with all parity checks, the j-th X-type logical has symplectic product 1 with the j-th Z-type logical and 0 with all others, and their number is twice the code dimension. "
 "For subsystem codes the returned stabilizers are exactly the operators that lie in the gauge group and commute with it, gauge operators form conjugate pairs inside the gauge group, and logical operators commute with all gauge and stabilizer operators. "
 "Requests for operators of one Pauli type return exactly the operators of that type, and repeated, recomputed or canonicalized requests stay consistent with these rules.",
 ["inputs", "histories"],
 "every parity check matrix over every field for which the code class is defined, and every order of requests on the same object",
 "Tests check a handful of codes by calling set_logical_ops on the result; the operators are produced by Gaussian elimination with data-dependent pivots, permutations and signs, for every matrix and odd as well as even characteristic.",
 [CM],
 [("QuditCode.get_logical_ops / get_standard_form_data", CM), ("CSSCode.get_logical_ops / get_standard_form_data_xz", CM), ("get_stabilizer_ops, get_gauge_ops, get_dual_subsystem_code", CM), ("set_logical_ops validation", CM)])
prop("C03", "Code parameters and canonical forms agree with linear algebra",
 "Length, number of checks, rank, dimension and gauge dimension of every code agree with the linear algebra of its parity check matrix (n - rank for stabilizer and classical codes; rank = stabilizers + 2*gauge and k + gauge + stabilizers = n for subsystem codes). "
 "The canonicalized code has the same row space in reduced row echelon form without zero rows, two codes compare as equivalent exactly when their checks span the same space over the same field, and check weight is the largest support of a check. "
 "Copies of a code agree with the original on all of these, and operators that fail the rules for logical operators or generators are rejected when a caller tries to install them.",
 ["inputs", "histories"],
 "every matrix over every field, redundant and empty checks included, and every order of calls",
 "Tests evaluate parameters for few codes, mostly binary and full rank.",
 [CM, "qldpc/math.py"],
 [("rank, dimension, gauge_dimension, canonicalized, equiv, get_weight", CM), ("_is_canonicalized, first_nonzero_cols", CM + " and qldpc/math.py"), ("set_generator, set_logical_ops", CM)])
prop("C04", "Exact distances are the true minimum weights",
 "The exact distance reported for a classical code is the minimum Hamming weight of a nonzero code word (or the minimum distance from a given vector to the code), and for a quantum code it is the minimum number of qudits supporting an operator that commutes with the checks and acts nontrivially on the logical qudits, also separately for X-type and Z-type operators of CSS codes. "
 "A code of dimension zero has undefined (NaN) distance. "
 "The answer does not depend on block length, on previous calls, or on which generators describe the code.",
 ["inputs", "histories"],
 "every classical and quantum code over every field, including block lengths that are not multiples of 64 and redundant generators",
 "Tests compare a few tiny codes; the fast path packs words into 64-bit integers and walks a Gray code, whose correctness needs all bit patterns and lengths.",
 ["qldpc/codes/distance.py", CM],
 [("get_distance_classical, get_distance_quantum, popcount and symplectic weight kernels", "qldpc/codes/distance.py"), ("get_distance_exact, get_distance_if_known", CM)])
prop("C05", "Distance bounds never fall below the true distance",
 "Every upper bound on a distance that is returned by the randomized estimators (single trial or minimum over trials, with or without cutoff, for classical codes, for distances from a vector, and for CSS codes and their X/Z sectors) is at least the true distance and at most the block length (or the trivial bound). "
 "If the exact distance is already known, the estimators return it. "
 "Weight reduction of logical operators keeps them a valid basis of logical operators. "
 "Random logical operators are products of logical operators and stabilizers, and act nontrivially if that is promised.",
 ["inputs", "schedules"],
 "every code, every decoder result (valid, invalid or heuristic) and every random choice",
 "Tests mock the decoder or compare one seed; soundness must hold for whatever word the decoder returns.",
 [CM],
 [("get_one_distance_bound, get_distance_bound (classical and CSS)", CM), ("reduce_logical_op(s)", CM)])
prop("C06", "Classical code algebra: duals, tensor products, puncture, shorten",
 "For every classical code, the generator's rows are a basis of the words that satisfy all checks, the dual's words are exactly those orthogonal to every word, double dual returns the same code, and iterating words lists each word exactly once. "
 "Tensor products, stacking, puncturing, shortening and construction from a generator produce exactly the code space that their definitions prescribe. "
 "Membership tests agree with the code space.",
 ["inputs"],
 "every parity check or generator matrix over every field, every subset of bits",
 "Tests sample a few binary codes; the definitions quantify over all codes, including degenerate ones (zero columns, redundant rows, dimension 0).",
 [CM],
 [("ClassicalCode.generator, dual, tensor_product, stack, puncture, shorten, from_generator, iter_words, __contains__", CM)])
prop("C07", "Stacking and concatenation preserve checks, logicals and dimension",
 "Stacking quantum codes yields the block-diagonal code whose length and dimension are the sums of the inputs', with inherited logical operators that act on disjoint blocks and obey all commutation rules. "
 "Concatenation encodes the outer code's physical qudits in the inner code's logical qudits under the given (or default interleaved) map: inner checks are kept, outer checks and logicals are re-expressed through inner logicals, and the result has commuting checks, length and dimension as prescribed. "
 "The same holds with or without inherited logicals, for plain and CSS codes.",
 ["inputs", "configurations"],
 "every sequence of input codes over a common field and every qudit map",
 "Tests concatenate two fixed codes; the identities involve all inner/outer matrices and all maps.",
 [CM],
 [("QuditCode.stack, CSSCode.stack", CM), ("QuditCode.concatenate, CSSCode.concatenate, _standardize_concatenation_inputs", CM)])
prop("C08", "Conjugation and Clifford deformation preserve the code's structure",
 "Conjugating any subset of qudits (local Fourier transforms) preserves all symplectic products between checks and logical operators, hence dimension, rank and validity of logical operators, in every characteristic; weights and distances are unchanged. "
 "Deforming a qubit code by a Clifford circuit maps checks and logical operators to their images under that circuit up to sign, preserving all commutation relations, and keeps the original logicals only if they remain valid. "
 "Qudits outside the conjugated subset or the circuit are untouched.",
 ["inputs", "programs"],
 "every code over every field, every qudit subset and every Clifford circuit",
 "Tests conjugate one code over GF(2); sign errors only show in odd characteristic and for general subsets.",
 [CM, QU, "qldpc/math.py"],
 [("QuditCode.conjugated, QuditCode.deformed", CM), ("op_to_string", "qldpc/math.py"), ("default conjugation sets of named codes", QU)])
prop("C09", "Decoders return corrections that explain the syndrome",
 "For each decoder that claims to solve the decoding problem, a returned correction reproduces the syndrome it was given whenever it reports success; the lookup and integer-program decoders return minimum-weight corrections, and the generalized union-find decoder returns a correction for every syndrome that some error can cause, and, with a weight limit that it does not meet, the lightest correction within its search. "
 "A decoder does not modify its inputs, and its answer does not depend on earlier calls or on changes made to earlier answers. "
 "Decoders built from another decoder return the input with a correction removed, so that code words are fixed points.",
 ["inputs", "histories"],
 "every parity check matrix over every supported field (Hamming and symplectic weight), every syndrome and every call history",
 "Tests decode few errors on tiny codes.",
 ["qldpc/decoders.py"],
 [("LookupDecoder, ILPDecoder, GUFDecoder, BlockDecoder, DirectDecoder, decode, get_decoder", "qldpc/decoders.py")])
prop("C10", "Group algebra elements obey ring axioms and lift as homomorphisms",
 "Arithmetic of group algebra elements (addition, negation, subtraction, multiplication, scalar multiplication, powers, transposition) obeys the axioms of the group algebra over the field, including for non-Abelian groups. "
 "Lifting an element to a matrix is linear and multiplicative, and lifting the transpose gives the transpose of the lift whenever group members lift to permutation matrices. "
 "Arrays of such elements lift blockwise, and converting an element to and from its vector or field-valued form is lossless. "
 "The primitive central idempotents of a semisimple algebra are the elements that the text of the computer algebra system denotes: orthogonal idempotents that sum to one.",
 ["inputs"],
 "all elements, groups and fields",
 "Tests evaluate single sums and products in one small group.",
 ["qldpc/abstract.py"],
 [("RingMember, GroupRing, RingArray (lift, T, to_field_array, regular_lift, ...)", "qldpc/abstract.py")])
prop("C11", "Groups, lifts and named groups satisfy group and representation laws",
 "For every supported group construction (permutation generators, Cayley tables, generating matrices, products, named families), products and inverses obey the group laws, generation yields exactly the closure with the advertised order, and membership agrees with it. "
 "The lift of every member is an invertible matrix over the group's field and the lift of a product is the product of the lifts (for every group not listed as a known finding); the regular lift does so by permutation matrices. "
 "Group products act on disjoint sets of points and keep both factors.",
 ["inputs", "configurations"],
 "all groups in each family, all pairs of members",
 "Tests assert orders of a few groups; homomorphism laws quantify over all pairs of members of all groups.",
 ["qldpc/abstract.py", "qldpc/external/groups.py"],
 [("Group, GroupMember, Group.from_table, from_generating_mats, lift, regular_lift", "qldpc/abstract.py"), ("CyclicGroup, DihedralGroup, AlternatingGroup, SymmetricGroup, QuaternionGroup, SpecialLinearGroup, ProjectiveSpecialLinearGroup, SmallGroup", "qldpc/abstract.py")])
prop("C12", "Null spaces and row reduction over group algebras are sound",
 "Every row of the null space reported for a matrix over a group algebra is annihilated by that matrix, and all annihilated vectors are spanned by the reported rows. "
 "Row reduction keeps the left span of the rows of the matrix. "
 "Both hold for every group (Abelian or not), every field characteristic (also dividing the group order) and every shape.",
 ["inputs"],
 "all matrices over all finite group algebras",
 "Tests reduce two small fixed matrices; zero divisors and non-commutativity only show on specific entries.",
 ["qldpc/abstract.py"],
 [("RingArray.null_space, RingArray.row_reduce, howell-type elimination helpers", "qldpc/abstract.py")])
prop("C13", "Chain complexes compose to zero; product codes agree across their views",
 "Consecutive boundary operators of every chain complex that can be built, including duals and tensor products of complexes over Abelian group algebras, multiply to zero, and inconsistent operators are rejected; homological dimensions follow the Kunneth formula. "
 "The hypergraph product built from matrices, from Tanner graphs and from chain complexes is the same code up to relabeling of qudits and checks; subsystem hypergraph product checks and logical counts follow from the seed codes. "
 "Lifted products over an Abelian group equal the hypergraph product of protographs lifted entrywise, and the recorded sector sizes count the qudits and checks of each block.",
 ["inputs"],
 "all seed matrices over all fields, all protographs over Abelian groups",
 "Tests compare the views on one random seed pair.",
 ["qldpc/objects.py", QU],
 [("ChainComplex.__init__, op, T, tensor_product", "qldpc/objects.py"), ("HGPCode.get_matrix_product, get_graph_product, SHPCode, LPCode, SLPCode", QU)])
prop("C14", "Tanner graphs and Pauli strings round-trip losslessly",
 "Converting a parity check matrix to a Tanner graph and back returns the same matrix for classical and quantum codes over every field, with one node per check and per (qu)dit even if it is isolated, and edges exactly where the matrix is nonzero. "
 "Writing the checks of a quantum code as strings and reading them back returns the same code; parsing and printing of single-qudit operators are inverse. "
 "Pauli and qudit operator algebra (products, commutation, inversion) agrees with the symplectic representation.",
 ["inputs"],
 "all matrices over prime fields (strings) and all fields (graphs), all operators",
 "Tests round-trip one code.",
 [CM, "qldpc/objects.py", "qldpc/math.py"],
 [("matrix_to_graph, graph_to_matrix, get_strings, from_strings", CM), ("Pauli, QuditOperator, Node", "qldpc/objects.py"), ("op_to_string", "qldpc/math.py")])
prop("C15", "Encoding circuits prepare code states for every qubit code",
 "For every qubit stabilizer code, and every CSS subsystem code, the encoding circuit maps the all-|0> data state into the code space with all logical qubits in |0>: every stabilizer and every logical Z operator is satisfied with the right sign. "
 "The encoding tableau is a valid Clifford map that takes logical Paulis of the first k qubits to the code's logical operators, the next qubits' Paulis to gauge operators and the Z operators of the remaining qubits to independent stabilizers. "
 "The circuit acts on exactly the code's qubits, and codes over other fields are rejected.",
 ["inputs"],
 "every qubit stabilizer code and every qubit CSS subsystem code",
 "Tests prepare a few fixed codes; pivots, destabilizers and signs depend on the code.",
 ["qldpc/circuits.py"],
 [("get_encoding_tableau, get_encoding_circuit", "qldpc/circuits.py"), ("op_to_string", "qldpc/math.py")])
prop("C16", "Logical tableaus and transversal operations act as claimed",
 "For every physical Clifford circuit that preserves the code space, the logical tableau describes exactly the induced action on logical qubits, in composition with the logical operators of the code. "
 "Transversal circuits found by search implement the requested logical operation, preserve the stabilizer group, and use only the allowed local gates and permutations. "
 "Circuits for code automorphisms preserve the code.",
 ["inputs", "programs"],
 "every code, every code-preserving circuit",
 "Tests look at two codes and two gates.",
 ["qldpc/circuits.py"],
 [("get_logical_tableau, get_transversal_ops, get_transversal_circuit, get_transversal_automorphism_group", "qldpc/circuits.py")])
prop("C17", "Cayley complexes and quantum Tanner codes are well-formed and reload",
 "In every left-right Cayley complex each vertex lies on exactly |A||B| faces, each face is (g, ag, gb, agb), faces and edges counts follow from group and subset sizes, and the requested bipartite structure holds; subsets are closed under inverse and the total non-conjugacy condition is enforced or handled by covering. "
 "Quantum Tanner codes built on such complexes assign local codes consistently, giving commuting checks. "
 "Saving a quantum Tanner code and loading it back returns an equal code.",
 ["inputs", "configurations"],
 "all groups, generating subsets and local codes",
 "Tests build one or two random codes.",
 ["qldpc/objects.py", QU],
 [("CayleyComplex", "qldpc/objects.py"), ("QTCode, TannerCode", QU + " and " + CL)])
prop("C18", "Quasi-cyclic layouts, labels and equivalent lattices are faithful",
 "For every bivariate bicycle or quasi-cyclic code, the polynomials, matrix and group order agree: checks act on exactly the qubits given by the polynomial shifts on the torus, for every order and every polynomial with positive or negative exponents. "
 "Node labels, qubit indices and lattice positions are mutually inverse, layouts place all qubits and checks at distinct sites with the promised locality, and toric layouts found for a code describe an equivalent code up to permutation of qubits. "
 "Changing polynomials of a code accordingly yields a code with the same parameters.",
 ["inputs", "configurations"],
 "all orders and polynomials",
 "Tests use a few polynomial pairs.",
 [QU],
 [("QCCode, BBCode: get_node_label, get_qubit_pos, get_equivalent_toric_layout_code_data, get_canonical_form, modulate/shift", QU)])
prop("C19", "Named code families have their advertised parameters",
 "Every member of the named classical families (repetition, ring, Hamming, Reed-Muller, Reed-Solomon, BCH, Golay-type and trivial codes) and quantum families (five-qubit, Steane, iceberg, C4, C6, many-hypercube, surface, toric, generalized surface, Bacon-Shor, hypergraph and subsystem products) has the length, dimension and distance that its family prescribes for the given size arguments and field. "
 "Claims of known distances attached to a freshly built code equal its true distances, also in the X and Z sectors. "
 "Generators and checks attached to a code describe the same code.",
 ["configurations"],
 "all sizes, fields and options of each family",
 "Tests check one or two sizes per family.",
 [CL, QU],
 [("RepetitionCode, RingCode, HammingCode, ReedSolomonCode, BCHCode, ReedMullerCode", CL), ("FiveQubitCode ... GeneralizedSurfaceCode, SHYPSCode, BaconShorCode", QU)])
prop("C20", "Queries and constructions never modify the objects they are given",
 "Constructing codes, complexes, decoders, circuits or derived codes from arrays, graphs, groups or other codes leaves the caller's objects unchanged. "
 "Queries on a code (parameters, operators, distances, graphs, circuits, derived codes) do not change its checks, logical operators or parameters, and asking again returns the same answer. "
 "Only the documented setters and weight-reduction methods change an object.",
 ["histories", "inputs"],
 "every sequence of queries on every object",
 "Tests use every object once; aliasing bugs need a second use.",
 [CM, CL, QU, "qldpc/objects.py", "qldpc/decoders.py", "qldpc/circuits.py", "qldpc/abstract.py"],
 [("copies taken in constructors, conjugated, concatenate, shorten, row_reduce, decode", CM)])
prop("C21", "Disk caching is transparent to callers",
 "A function wrapped with the disk cache returns, for every sequence of calls with scalar arguments, the same results as the unwrapped function, with different arguments or different cache names never sharing an entry. "
 "A repeated call (the same arguments, given in the same order and form) is not evaluated again while the cache is intact, and failures are not cached. "
 "Deleting entries of the cache object forces re-evaluation of exactly those calls.",
 ["histories"],
 "every sequence of calls, keyword orders and cache names",
 "Tests make two calls.",
 ["qldpc/cache.py"],
 [("use_disk_cache, get_disk_cache", "qldpc/cache.py")])
prop("C22", "Answers from GAP and web services describe the named group or code",
 "Groups and codes requested by name from the GAP computer algebra system or from web databases equal the mathematical object of that name.",
 ["inputs"], "all names and all replies of the external service",
 "Tests mock the service replies.",
 ["qldpc/external/gap.py", "qldpc/external/groups.py", "qldpc/external/codes.py"],
 [("get_output, get_generators, get_code", "qldpc/external")])
prop("C23", "Estimated logical error rates converge to the true rates",
 "The functions from physical to logical error rate return unbiased estimates of the true code-capacity logical error rate of the code and decoder, with correct standard errors.",
 ["inputs"], "all codes, decoders, sample budgets and random choices",
 "Tests only check that a curve is produced.",
 [CM], [("get_logical_error_rate_func, _get_sample_allocation, _get_error_probs_by_weight", CM)])
pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
