"""What each check claims: used for MANIFEST.json (tools/mkmanifest.py), the evidence files (vf/harness.py) and DESIGN.md (tools/mkdesign.py).

level "proof": the statement, as far as it is about code in /repo, is covered by discharged obligations over contracts of
dependencies; the bounded evaluations are there in addition. "other": part of the statement is only evaluated on bounded inputs.
"""
PROVED = "contracts on the real functions, discharged for all inputs by symbolic execution of the live code with loop invariants (rewriting / z3 / Lean)"
MIXED = PROVED + "; functions out of reach: the same contracts evaluated on generated inputs (bounded)"
BOUND = "contracts on the real functions evaluated on generated inputs against independent oracles (bounded stand-in for functions out of the prover's reach)"

BASE = ["the provers: z3 5.3.2, Lean 4.33 with Mathlib, the rewriting engine vf/sym/mat.py and the ownership rules vf/sym/frames.py",
        "the Python interpreter; integers of Python are mathematical integers (exact); machine integers only in the distance kernels, where they are 64-bit vectors"]

META = {
 "C01": dict(level="other", technique=MIXED, minimum=18,
  proved="symplectic_conjugate; the flag set by QuditCode/CSSCode.__init__ (exactly the codes with a non-commuting pair of checks); HGPCode (matrix form, one and two seeds), SHPCode, TBCode (accepts exactly commuting matrices): for all matrices of all shapes over all fields.",
  bounded="lifted products, quasi-cyclic and bivariate bicycle codes, geometric codes, quantum Tanner codes, codes derived from others (746+ codes, n <= 200).",
  gap="LPCode/SLPCode lift group-algebra matrices through sympy groups; the geometric codes build entries from coordinates. Non-Abelian lifted products do break the property (known finding)."),
 "C02": dict(level="other", technique=MIXED, minimum=16,
  proved="CSSCode.get_logical_ops (stabilizer and subsystem), QuditCode.get_logical_ops (stabilizer), set_logical_ops and set_logical_ops_xz (accept exactly the valid operators), get_stabilizer_ops of subsystem codes (the centre of the gauge group), get_dual_subsystem_code, logical operators of HGPCode/SHPCode.",
  bounded="gauge operators as conjugate pairs, non-CSS subsystem codes, request histories (recompute, canonicalized, one Pauli type).",
  gap="QuditCode.get_logical_ops for subsystem codes that are not CSS is wrong on some inputs (known finding)."),
 "C03": dict(level="other", technique=MIXED, minimum=44,
  proved="length, checks, rank, dimension, gauge dimension (stabilizer, subsystem, CSS, classical), canonicalized(), equiv(), copies, equality, stabilizers.",
  bounded="check weights, families, rejection of invalid operators by setters in all combinations, histories.",
  gap="get_weight is a loop over entries of concrete matrices (its contract is evaluated, not proved)."),
 "C04": dict(level="other", technique=MIXED, minimum=23,
  proved="the bit-twiddling weight kernels (z3, 64-bit vectors, all inputs), trailing zeros, the row sum, the Gray-code enumeration of get_distance_quantum (every nontrivial combination is visited exactly once: loop invariant), iter_words, get_distance_exact of all code classes against the kernels' contracts.",
  bounded="packing of rows into 64-bit integers (_rows_to_ints, _riffle), get_distance_classical of the fast path, caching of distances across calls; brute force oracle for n <= 14.",
  gap="packing is byte-level numpy."),
 "C05": dict(level="other", technique=MIXED, minimum=22,
  proved="get_distance_bound of all classes (invariant: true distance <= bound <= n, for any outcome of a trial that obeys its contract), get_one_distance_bound (the bound is the weight of a nonzero word / nontrivial logical operator, for any behaviour of the decoder), get_random_logical_op, reduce_logical_op(s).",
  bounded="end-to-end runs with real decoders on small codes, seeds, cutoffs.",
  gap="none of the core functions; the end-to-end composition with external decoders is only run."),
 "C06": dict(level="other", technique=MIXED, minimum=24,
  proved="generator/dual, set_generator, from_generator, tensor_product, membership, random words, canonicalized, puncture of up to 2 bits at arbitrary positions, shorten (loop invariant, any number of bits).",
  bounded="iter_words on concrete codes, puncture of many bits, named families.",
  gap="puncture is proved for 0, 1 and 2 bits (one np.delete call whose contract is structural)."),
 "C07": dict(level="other", technique=MIXED, minimum=18,
  proved="stack of 2 and 3 codes with and without inherited logical operators (qudit, CSS, classical), block structure for all shapes.",
  bounded="concatenate (default and explicit maps, inherited logicals), many blocks, named combinations.",
  gap="concatenate permutes columns by a data-dependent map."),
 "C08": dict(level="other", technique=MIXED, minimum=6,
  proved="conjugated (symplectic products kept, other qudits untouched, logical operators carried along; any subset of qudits, any field).",
  bounded="deformed (needs stim's tableau semantics): images of checks and logicals are compared with an independent Clifford simulator.",
  gap="deformed calls stim for the image of each string."),
 "C09": dict(level="proof", technique=PROVED, minimum=17,
  proved="LookupDecoder (table invariant over the enumeration: lightest error for every syndrome), GUFDecoder (an answer solves its sub-problem; the search gives up only on closed error sets; with the Lean lemmas subproblem_sound/complete and solution_found it answers every syndrome that an error can cause), get_sub_problem_indices, ILPDecoder (constraints hold for exactly the solutions, objective is the weight, failures are reported), BlockDecoder, DirectDecoder, decode/get_decoder dispatch.",
  bounded="all decoders run on small matrices over GF(2..5), with histories.",
  gap="decoders of the packages ldpc and pymatching are trusted (they do not claim to solve every syndrome)."),
 "C10": dict(level="proof", technique=PROVED, minimum=45,
  proved="every arithmetic method of RingMember is proved, term by term, to compute the formal sums of its contract (any group, any field); Lean lemmas derive the ring axioms, linearity and multiplicativity of lifts, and transposes, from these contracts; vector forms round-trip; RingArray lifts blockwise, transposes, and converts to and from field-valued arrays and vectors without loss, for every shape; inverses are two-sided and found exactly when they exist.",
  bounded="the contracts are also evaluated on groups of order <= 24 and GF(2..9), and RingArray.build, numpy functions on arrays (ring attribute) are evaluated only; idempotents are read from texts as GAP prints them, for cyclic groups over 19 fields.",
  gap="numpy's element-wise arithmetic on object arrays is trusted."),
 "C11": dict(level="other", technique=MIXED, minimum=8,
  proved="regular lift, permutation matrices of members, index, dispatch of lifts; Lean: the regular lift is a homomorphism by invertible matrices.",
  bounded="generation by each constructor (closure, order, membership), the lifts of named groups, products: checked exhaustively over all members of groups up to order 200.",
  gap="sympy's permutation groups enumerate members."),
 "C12": dict(level="proof", technique=PROVED, minimum=37,
  proved="null_space (rows are exactly the transposed kernel vectors of the regular lift, for every shape; Lean: these are exactly the annihilated vectors), row_reduce and its helpers (each iteration of the elimination loop multiplies a row by a unit from the left and adds left multiples of it to others; the split into pivot rows and others loses no nonzero row; a dependent row is dropped only after its system over the field was found solvable, which by Lean lemmas makes it a left-linear combination of the rows that stay), RingMember.inverse, blockwise lifts and field-valued forms of RingArray.",
  bounded="the contracts are also evaluated on random matrices up to 3x3 over 13 groups and GF(2..5), compared with linear algebra over the regular representation.",
  gap="termination of the elimination loop is not claimed; galois' null_space, row_reduce and numpy's matrix inverse are trusted."),
 "C13": dict(level="other", technique=MIXED, minimum=30,
  proved="ChainComplex accepts exactly operators that compose to zero (up to 4 operators), tensor products of complexes with up to 3 operators each (boundary operators are the total differential and compose to zero, for all shapes and fields), hypergraph product from matrices equals the one from complexes.",
  bounded="Tanner-graph form of products, Kunneth formula, subsystem and lifted products, group algebras.",
  gap="the number of operators in a complex is bounded in the proofs; shapes and fields are not."),
 "C14": dict(level="other", technique=MIXED, minimum=9,
  proved="Pauli algebra (all cases), QuditOperator printing/parsing/inverse/Fourier, node order, matrix_to_graph and graph_to_matrix (classical and quantum): edges are exactly the nonzero entries with their values.",
  bounded="strings of codes (get_strings, from_strings), graphs with isolated nodes over GF(2..9), round trips.",
  gap="string assembly of whole codes is evaluated only."),
 "C15": dict(level="other", technique=MIXED, minimum=10,
  proved="for all qubit codes: the operators that get_encoding_tableau hands to stim satisfy the commutation relations of single-qubit Paulis (candidate and orthogonalization loops with invariants), start with the logical operators, go on with gauge operators and end with the canonical stabilizers, whose signs are those of products of checks; strings of operators; encoders, decoders, rejection of other fields; Lean: candidates are dual to the stabilizers, signs agree, the encoded state is fixed by every check.",
  bounded="all encoders of 793+ codes (random stabilizer codes up to 8 qubits, CSS subsystem codes, named families) are simulated with an independent tableau simulator; signs included.",
  gap="stim's construction of tableaus from their generators, and of circuits from tableaus, is trusted."),
 "C16": dict(level="other", technique=MIXED, minimum=16,
  proved="for all qubit codes and gate sets: the logical tableau is the logical block of encoder, circuit and (deformed) decoder; transversal operations are searched among all permutations of qubits and of the columns of Pauli operators that the gates can reach, intersected with the automorphisms of the classical code of these columns; the circuit of an automorphism permutes Pauli operators and qubits as the automorphism permutes columns, after a product of destabilizers for exactly the stabilizers that change sign; get_transversal_ops leaves out redundant operations only; get_transversal_circuits compares every member with every target until all are matched and adds the logical Pauli corrections of exactly the signs that differ; Lean: swaps along cycles, automorphisms preserve the group of checks, signs and corrections.",
  bounded="logical tableaus of generated code-preserving circuits and all transversal circuits found for small codes, against an independent simulator; the automorphism search (GAP/MAGMA) is replaced by a stand-in that searches exhaustively.",
  gap="GAP's automorphism groups, sympy's subgroup search and stim's tableaus are trusted."),
 "C17": dict(level="other", technique=MIXED, minimum=26,
  proved="for all groups, subsets and local codes: the vertices, edges and faces of Cayley complexes (each vertex gets exactly its edges (g, ag), (g, gb)), covers, the enforced conditions (symmetric subsets, total no-conjugacy); Tanner codes place the local checks on the sorted neighbours; the subgraphs and local codes of a quantum Tanner code; Lean: every vertex has |A||B| faces, X and Z checks of the code commute, double and quadruple covers satisfy total no-conjugacy and respect the bipartition.",
  bounded="complexes over groups up to order 60 with all kinds of subsets, every face and vertex checked; save/load round trips.",
  gap="save and load parse text files: evaluated only. networkx graphs and sympy's permutations are trusted."),
 "C18": dict(level="other", technique=MIXED, minimum=28,
  proved="for all orders and exponents: node labels are the digits of indices, sites are distinct in both layouts and neighbours stay within distance 2 when folded; get_order, modular_inverse, is_valid_basis; polynomials become sums of coefficients times powers of the generators of their symbols, canonical forms keep them modulo the orders (any number of terms, up to three symbols); the blocks are the transposed lifts; change of generators; every toric layout comes from a valid basis of quotients of terms; Lean: periods, bases are isomorphisms, which relabel the checks.",
  bounded="quasi-cyclic and bivariate bicycle codes for all small orders and generated polynomials (negative exponents, repeated monomials), with matrices and layouts compared entry by entry, equivalence of toric layouts by search over isomorphisms.",
  gap="that lifts of Abelian groups are products of cyclic shifts is evaluated (also under C11); sympy's expansion and substitution are trusted."),
 "C19": dict(level="other", technique=MIXED, minimum=5,
  proved="repetition, ring, Hamming and extended Hamming codes: entries and shapes of the matrices, for every size and field, and the claimed dimension and distance; the recursion of Reed-Muller generators with claimed dimension and distance; surface and toric codes: the tiles of the rotated layouts, signs of the checks over non-binary fields, claimed dimension and distances, for every number of rows and columns; HGPCode, SHPCode, BaconShorCode, SHYPSCode, IcebergCode: checks, factors, claimed dimension and distances; Lean: these matrices have exactly these dimensions and distances (rotated surface codes of every size over every field; hypergraph products and subsystem hypergraph products of all pairs of matrices).", bounded="members of every family up to stated sizes against independent formulas and brute force distances.",
  gap="the distance of rotated toric codes and the other families (Reed-Solomon, BCH, generalized surface codes, ...) are evaluated for members up to stated sizes; simplex codes are all evaluated."),
 "C20": dict(level="proof", technique="frame contracts (assigns nothing of the caller) checked function by function by a modular ownership analysis of the current source; histories of queries evaluated (bounded)", minimum=400,
  proved="for every function and method of /repo (414): it assigns nothing that belongs to its arguments, except for the functions whose contract says so (three kernels with out= buffers, setters, weight reduction, memo attributes); each caller is checked against the summaries of its callees.",
  bounded="asking again returns the same answer: snapshots of 290+ objects before and after sequences of queries.",
  gap="that memo attributes do not change later answers is evaluated (and proved in part under C02-C05)."),
 "C21": dict(level="proof", technique=PROVED, minimum=5,
  proved="the wrapper against any consistent store: hit returns the entry without evaluation, miss evaluates once and stores under the same key, failures are not stored; different calls have different keys (up to 3 positional and 3 keyword arguments), same call same key; different names use different directories.",
  bounded="sequences of calls on real caches in scratch directories.",
  gap="diskcache itself is trusted."),
}
LEVEL_TEXT = {"proof": "Proved for all inputs, over the contracts of dependencies that are listed as assumptions: ", "other": "Proved for all inputs: "}


def note(pid):
    m = META[pid]
    head = (LEVEL_TEXT[m["level"]] + m["proved"]) if m["proved"] else "Bounded contract evaluation, not a proof."
    return f"{head} Bounded: {m['bounded']} Limits: {m['gap']}"
