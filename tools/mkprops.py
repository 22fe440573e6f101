#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Conserved charges form an abelian group with one canonical form",
 "For every supported charge type (integers, residues modulo N, and products of these), combining charges is closed, associative and commutative with a neutral element and inverses, and every charge, whatever representative it was built from and whatever sequence of in-place or out-of-place operations produced it, has one canonical value. Equality, inequality, the strict total order (lexicographic for products), distance and the reported values all agree with that group. Type-erased charges behave exactly like the concrete charges they hold, copies are independent of their source, and combining or comparing charges of different types is refused.",
 ["inputs", "histories"], "every charge type, every representative (including negative and out-of-range ones), every sequence of combine / invert / assign / compare operations on concrete and type-erased charges",
 "The group laws quantify over all representatives and all compositions; the unit tests combine a handful of small positive values and never a representative such as -4 modulo 2.",
 ["include/Conserved/quantity.h", "include/Conserved/Composite/cquantity.h", "include/Conserved/Composite/quantity_impl.h", "sources/any_quantity.cpp", "sources/groups.cpp"],
 [("conserved::C<N>::C / op / inverse", "include/Conserved/quantity.h"), ("conserved::Z", "include/Conserved/quantity.h"), ("quantity<...>::op, operator<, ==", "include/Conserved/quantity.h"), ("any_quantity / any_quantity_cref / any_quantity_ref", "include/Conserved/Composite/cquantity.h")],
 ["public operators of quantity<...> and any_quantity: *, *=, op, inverse, inverse_, neutral, ==, !=, <, >, get_val, distance, format"])

prop("C02", "The polymorphic charge list behaves as a homogeneous value sequence",
 "Under any sequence of insertions, erasures, appends, resizes, swaps, copies and moves, a list of type-erased charges contains exactly the charges that a mathematical sequence subjected to the same edits would contain, in the same order, and its size, element access, iterators and returned positions agree with that sequence. Copies are independent values, permuting runs of consecutive elements rearranges exactly those runs, and adding a charge of another type is refused with the list unchanged.",
 ["histories"], "every finite history of list edits over every charge type, including edits at the ends, empty ranges and refused edits",
 "Unit tests run one fixed scenario per method; position arithmetic and value semantics must hold after every history of edits.",
 ["include/Conserved/Composite/quantity_vector.h", "include/Conserved/Composite/quantity_vector_impl.h"],
 [("any_quantity_vector", "include/Conserved/Composite/quantity_vector.h"), ("quantity_vector<T>::insert/erase/resize/permute", "include/Conserved/Composite/quantity_vector_impl.h")],
 ["public members of any_quantity_vector and quantity_vector"])

prop("C03", "The block map is a sorted unique-key map under every history",
 "Under any history of single, hinted and range insertions, assignments, merges, erasures, clears and copies, the map stores each key at most once, iterates in strictly increasing key order, and holds for each key the value an ideal finite map would hold. Lookup, containment, count, bounds and size agree with that ideal map, the reported position and inserted-or-not flag of each edit are truthful, and when keys collide in a merge each collision is resolved by the rule the caller supplied applied to the stored and the incoming value (or by keeping the stored value when no rule was given).",
 ["histories"], "every finite history of map operations over arbitrary keys, with and without key collisions, sorted or unsorted inputs, good or bad hints",
 "The tests check a few fixed merges; order, uniqueness and collision handling must survive any history.",
 ["include/blockTensor/flat_map.h"],
 [("flat_map::insert / insert_or_assign / try_emplace / erase / merge", "include/blockTensor/flat_map.h")],
 ["public members of flat_map"])

prop("T01", "Every block tensor obtained from public operations is well formed",
 "In every tensor produced by any sequence of public operations, blocks are stored once each in increasing index order, each block index lies in range and satisfies the conservation law (the charges of its sections combine to the selection rule), each block's extent equals the extents of its sections, and the per-dimension section tables, sizes, options and rank are mutually consistent, so that the library's own consistency check accepts it. Reading any element through the block structure gives zero exactly where no block is stored.",
 ["inputs", "histories"], "every shape (any rank, any number of sections including repeated charges and negative-unit charges), every charge group, every history of operations",
 "Well-formedness is an invariant over all operation histories; tests only look at final values of a few expressions.",
 ["include/blockTensor/btensor.h", "sources/btensor.cpp"],
 [("btensor constructors, check_tensor, block_conservation_rule_test", "sources/btensor.cpp"), ("block(), block_at()", "sources/btensor.cpp")],
 ["block iteration, section_sizes, section_conserved_qtt, selection_rule, sizes, check_tensor"],
 [("blocks_list", "the stored blocks", "include/blockTensor/btensor.h"), ("c_vals / sections_sizes / sections_by_dim", "section tables", "include/blockTensor/btensor.h")])

prop("T02", "Element-wise block arithmetic equals dense arithmetic with broadcasting",
 "Addition, subtraction (with a scale factor), multiplication, division, powers, absolute value, square root and comparisons of block tensors with tensors of the same or broadcast-compatible shape or with scalars give, on every element allowed by conservation (for comparisons, powers and divisions: on every element of a stored block), the value obtained by doing the same operation on the dense tensors, and the selection rule and section charges of the result are those obtained by combining the operands' charges. In-place and out-of-place forms agree, an absent block counts as zeros whichever operand lacks it, and the sum of all elements equals the dense sum.",
 ["inputs"], "all operand pairs with arbitrary block sparsity, broadcasting patterns, scale factors, scalar operands, charge groups and selection rules",
 "Sparsity patterns and broadcasting combinations are combinatorial; tests exercise a few fully populated shapes.",
 ["include/blockTensor/btensor.h", "sources/btensor.cpp"],
 [("btensor::add_/sub_/mul/div/pow/...", "sources/btensor.cpp"), ("broadcast_operation(_)", "sources/btensor.cpp"), ("mul_helpers", "sources/btensor.cpp")],
 ["to_dense and block iteration of results"])

prop("T03", "Block contraction equals dense contraction",
 "Contracting two block tensors over any compatible lists of dimensions (including none, all, and in any order) and batched matrix multiplication give exactly the dense result on every element, whatever blocks are absent on either side. The result's dimensions are the free dimensions of the first operand followed by those of the second with their charges, and its selection rule is the product of the operands' selection rules.",
 ["inputs"], "all operand pairs, contraction index lists, sparsity patterns, scale factors and charge groups",
 "Every block-pairing pattern must be right; a test that contracts one or two full shapes cannot settle unpaired, repeated or empty sections.",
 ["include/blockTensor/btensor.h", "sources/btensor.cpp"],
 [("btensor::tensordot / bmm", "sources/btensor.cpp"), ("compute_tdot_shape / reorder_by_cvals / block matching", "sources/btensor.cpp")],
 ["to_dense and block iteration of results"])

prop("T04", "Layout operations move blocks without changing content",
 "Permuting, transposing, grouping dimensions and restoring them, squeezing, taking a sub-tensor at fixed block positions and writing one back give the block tensor whose elements are exactly the elements the same operation selects or moves in the dense picture, with section sizes and charges moved or combined accordingly. Grouping dimensions and then restoring the original shape, and permuting and then un-permuting, return the original tensor exactly; writing through a position list changes only the addressed region.",
 ["inputs", "histories"], "all tensors, permutations, groupings, squeezes and position lists, and their compositions",
 "Index bookkeeping errors show only for particular ranks, section layouts and sparsity patterns which tests sample sparsely.",
 ["include/blockTensor/btensor.h", "sources/btensor.cpp"],
 [("permute(_), transpose(_), reshape, reshape_as, squeeze(_)", "sources/btensor.cpp"), ("basic_create_view, basic_index_put_", "sources/btensor.cpp")],
 ["to_dense and block iteration of results"])

prop("T05", "Charge bookkeeping operations preserve content and the conservation law",
 "Conjugation, inverting charges, moving a charge between a dimension and the selection rule, setting or neutralising the selection rule, neutralising a shape and building shapes from parts change charges exactly as documented, never change element values except for complex conjugation, and leave every block allowed by conservation when the operation is documented to conserve. Applying an involution twice, or a shift followed by the opposite shift, restores the original tensor.",
 ["inputs", "histories"], "all tensors, charge groups, dimensions, shifts and compositions of these operations",
 "The laws involve every charge in every section; tests check at most one or two shapes with one group.",
 ["include/blockTensor/btensor.h", "sources/btensor.cpp"],
 [("conj, conj_only, inverse_cvals(_), cval_shift(_), non_conserving_cval_shift_, shift_selection_rule_, set_selection_rule_, neutral_shape(_), shape_from, tensor_product_shape", "sources/btensor.cpp")],
 ["section charges, selection rule and block iteration of results"])

prop("T06", "Dense-to-block conversion and tensor factories are faithful",
 "Converting a dense tensor to blocks keeps every element whose position conservation allows and drops the others, keeps no block whose elements are all below the cutoff, and converting back gives the same dense tensor on the allowed positions and zero elsewhere. Every factory (zeros, ones, constant, identity, random, integer random, empty of a given or a like shape) fills exactly the allowed blocks with the promised values; the selection rule inferred from a dense tensor is the one its elements obey, or the request is refused when they obey none. Comparisons of whole tensors (allclose, any) and single-element access agree with the dense tensors.",
 ["inputs"], "all shapes, charge groups, selection rules, dense contents, cutoffs and element types",
 "The allowed positions depend on every combination of section charges; tests use single shapes.",
 ["include/blockTensor/btensor.h", "sources/btensor.cpp"],
 [("from_basic_tensor(_like), from_basic_impl, find_selection_rule", "sources/btensor.cpp"), ("zeros/ones/full/rand/randint/eye(_like)", "sources/btensor.cpp"), ("to_dense, item, element_index_decompose, index, index_put_", "sources/btensor.cpp")],
 ["to_dense and block iteration of results"])

prop("T07", "Incompatible requests are refused and operands are never disturbed",
 "An operation whose operands are incompatible in rank, extents or charges, or that would store a block or element forbidden by conservation, is refused with an exception and leaves every tensor exactly as it was. A successful out-of-place operation changes no operand (operands, their copies and other tensors keep value, structure and selection rule), and an in-place operation changes only its target.",
 ["histories", "inputs"], "every sequence of accepted and refused operations over a store of tensors, with the same tensor allowed in several operand positions",
 "Mutation of an operand or acceptance of an incompatible one is visible only if everything else is re-examined after every call, which tests do not do.",
 ["include/blockTensor/btensor.h", "sources/btensor.cpp"],
 [("add_tensor_check, check_product_compat, throw_on_bad_arg_blocks, block()", "sources/btensor.cpp"), ("tensordot / mul / permute / index_put argument checks", "sources/btensor.cpp")],
 ["all tensors in scope before and after each call; exceptions"])

prop("L01", "Singular value decomposition is exact, isometric and sector-resolved",
 "For every block (or plain) tensor and every split of its dimensions, the untruncated decomposition returns factors whose product reproduces the tensor, whose columns are orthonormal, and whose singular values are non-negative with squares summing to the squared norm and equal, sector by sector, to those of the corresponding matrix. The factors keep the outer dimensions' charges, the new bond's charges satisfy conservation on both factors, the weights are neutral, the left factor carries the tensor's selection rule and the right factor is neutral.",
 ["inputs"], "all tensors, ranks, splits, charge groups, selection rules, absent blocks, rank-deficient and repeated-charge sectors, real and complex elements",
 "Sector assembly fails only on particular block patterns (repeated charges, missing blocks, non-square sectors).",
 ["include/blockTensor/LinearAlgebra.h", "sources/btensor_linalg.cpp", "include/LinearAlgebra.h", "sources/LinearAlgebra.cpp"],
 [("svd, compact_dense, extract_dense, build_out_tensor", "sources/btensor_linalg.cpp"), ("svd(tensor, split)", "sources/LinearAlgebra.cpp")],
 ["factors returned by svd"])

prop("L02", "Truncation keeps exactly the largest weights the rule allows",
 "A truncated decomposition keeps the largest singular values (or eigenvalues by magnitude) over all sectors together, discards only a set whose combined weight is within the requested tolerance, discards as many as that tolerance allows, and honours the requested minimum and maximum counts (ties at the cut excepted). The kept values and the matching columns of both factors are those of the untruncated decomposition, so the reconstruction error equals the discarded weight.",
 ["inputs"], "all spectra (degenerate, zero, clustered across sectors), tolerances, exponents, minimum and maximum counts, block and plain tensors",
 "The rule couples all sectors through one global cut; tests check one spectrum and one limit.",
 ["include/blockTensor/LinearAlgebra.h", "sources/btensor_linalg.cpp", "sources/LinearAlgebra.cpp"],
 [("truncate_impl, truncate, compute_last_index", "sources/btensor_linalg.cpp"), ("truncate, svd(tensor, split, tol, ...)", "sources/LinearAlgebra.cpp")],
 ["values and factors returned by truncated svd / eigh / truncate"])

prop("L03", "Symmetric eigendecomposition is exact and sector-resolved",
 "For every Hermitian block (or plain) tensor seen as a matrix, the eigendecomposition returns real eigenvalues and orthonormal eigenvectors that reproduce the tensor, with the eigenvalues of each charge sector equal to those of that sector's matrix (zero eigenvalues of absent blocks may be left out) and the charges of the new bond satisfying conservation. The truncated form keeps the eigenvalues of largest magnitude together with their own eigenvectors.",
 ["inputs"], "all Hermitian tensors, splits, charge groups, absent blocks, real and complex elements",
 "As for singular values, sector assembly and value/vector pairing fail only on particular block patterns.",
 ["include/blockTensor/LinearAlgebra.h", "sources/btensor_linalg.cpp", "include/LinearAlgebra.h", "sources/LinearAlgebra.cpp"],
 [("eigh / symeig", "sources/btensor_linalg.cpp"), ("eigh / symeig", "sources/LinearAlgebra.cpp")],
 ["factors returned by eigh / symeig"])

prop("N01", "Tensor networks are only ever constructed and held consistent",
 "A matrix-product state or operator can only be obtained from tensors that have the required rank, whose adjacent bonds match in extent and charge (the bonds at the two ends are free), with an orthogonality center inside the network; any other list is refused by every constructor. Every public edit (assignment, swap, copy, move, conversion, insertion, erasure, replacement, resizing) leaves the network's length, tensors and orthogonality-center position as the corresponding sequence would have them.",
 ["inputs", "histories"], "all lists of tensors (plain and block), lengths, ranks, bond extents and charges, and all histories of edits",
 "Acceptance and refusal quantify over all malformed lists; tests try two or three.",
 ["include/MPT.h", "sources/MPT.cpp"],
 [("vector_lib / MPT_impl / MPS / MPO / bMPS / bMPO constructors, check_ranks, check_one", "include/MPT.h")],
 ["constructors, size, operator[], orthogonality_center, exceptions"])

prop("N02", "Moving the orthogonality center never changes the state",
 "Whatever state and whatever sequence of center moves, after each move every tensor the center has been moved away from is an isometry towards the center (left of it a left isometry, right of it a right one), the reported center is the requested one, no bond has grown, and the represented vector (hence its norm, sector and every expectation value) is unchanged. Requests outside the network are refused.",
 ["inputs", "histories"], "all states (plain and block), lengths, starting centers and sequences of moves",
 "Isometry must hold for every position after every sequence of moves; tests move once or twice on one random state.",
 ["include/MPT.h", "sources/MPT.cpp"],
 [("MPS::move_oc, bMPS::move_oc", "sources/MPT.cpp")],
 ["tensors of the network and orthogonality_center after each move"])

prop("N03", "Network contraction equals the dense inner product",
 "Contracting two states, or two states around an operator, optionally with boundary tensors, gives the sesquilinear form computed from the fully expanded dense vectors and matrix: linear in the first state and in the operator, with the second state conjugated, the identity (ones for the operator) on the boundary bonds when no boundary tensors are given, and alike for plain and block representations. The two-site operator built from neighbouring operator tensors is the dense product of both with its legs in the documented order.",
 ["inputs"], "all states, operators, lengths, bond dimensions, charges and boundary tensors",
 "Equality with the expanded object must hold for all networks; tests compare a couple of random ones with themselves.",
 ["include/MPT.h", "sources/MPT.cpp", "include/dmrg.h", "sources/dmrg.cpp"],
 [("contract(MPS,MPS,MPO...) / contract(bMPS,...)", "sources/MPT.cpp"), ("details::compute_2sitesHamil, compute_left_env / right_env", "sources/dmrg.cpp")],
 ["values returned by contract; two-site operators"])

prop("N04", "Random states are valid and live in the requested sector",
 "A randomly generated block state for any list of site spaces and requested total charge has the requested length, physical spaces, bond extents no larger than requested, a non-zero norm, and every basis configuration with non-zero amplitude has exactly the requested total charge; when no configuration of the sites has that charge the request is refused. (A request may also be refused, as documented, when the search for a first configuration fails; it must not be for sites whose states have charges in regular steps.) Plain random states have the requested length, site extents and bond extents cut only where the space is smaller, or are refused.",
 ["inputs"], "all site spaces, lengths, charge groups, bond limits and target charges, including unreachable ones",
 "Reachability of a sector depends on the whole chain; tests request one reachable sector.",
 ["include/MPT.h", "sources/MPT.cpp"],
 [("random_MPS / random_bMPS", "sources/MPT.cpp")],
 ["the returned network"])

prop("N05", "Compressing an operator network preserves the operator",
 "Compressing a matrix-product operator with zero tolerance gives a network representing exactly the same operator, with the same site spaces and bond extents never larger than before, for block networks of any length.",
 ["inputs"], "all operators, lengths, bond structures and charges",
 "Equality of the represented operator must hold for all operators; tests check one Hamiltonian.",
 ["include/MPT.h", "sources/MPT.cpp", "include/operators.h"],
 [("MPO::coalesce / bMPO::coalesce", "sources/MPT.cpp")],
 ["tensors of the network before and after coalesce"])

prop("D01", "Sweeps follow the documented protocol and stop as documented",
 "A ground-state run from a state whose center is where it reports it updates every neighbouring pair of sites in each sweep, whatever the center it starts from. The logger is told once of the options before the first sweep, then after each sweep its number (counted from 0), its energy and the state (step, energy, bonds, in this order, when it looks at the parts), and once more at the end: the returned energy is the one of the last sweep. The run stops after the first sweep whose energy change is no larger than the criterion (in absolute value for plain networks, relative to the energy for charge-conserving ones, 100000 standing for the energy before the first sweep), or at the iteration limit; zero sweeps leave the state as it was. The operator is left unchanged. At the end the network has its original length, site spaces and boundary bonds, its reported orthogonality center is its true one, its norm is one and its bond extents respect the maximum (with conserved quantities, not counting sections in which nothing is stored, and up to values equal to the last one kept). Chains of fewer than two sites, states of another length or other site spaces (other than plain sites of one state, which torch stretches), and states of zero norm are refused.",
 ["inputs", "schedules"], "all lengths, starting centers, norms, iteration limits, convergence criteria and bond limits, given and random starting states, plain and block networks, real and complex",
 "The protocol is a state machine whose end states depend on length, start and stop reason; tests look only at the final energy.",
 ["include/dmrg.h", "sources/dmrg.cpp", "include/dmrg_logger.h", "include/dmrg_options.h"],
 [("dmrg_impl, sweep, two_sites_update, details::dmrg", "sources/dmrg.cpp"), ("dmrg_logger", "include/dmrg_logger.h")],
 ["logger callbacks, returned energy, resulting network"])

prop("D02", "Ground-state energies are variational and exact when nothing is truncated",
 "For a Hermitian operator in network form, the energy returned by a ground-state run of at least one sweep is never below the exact lowest eigenvalue of the operator in the state's charge sector, and neither is the expectation value of the operator in the resulting state; every amplitude of the resulting state is in the charge sector of the starting state. When nothing is truncated the returned energy equals that expectation value, the energies of successive sweeps do not increase, and a converged run from a random state reaches the lowest eigenvalue of the sector (when it is separated from the others and, with conserved quantities, the bonds can hold every section: two sites).",
 ["inputs"], "all Hermitian operators in network form with neutral boundary bonds, small lengths, sectors, starting states, plain and block networks, real and complex",
 "Variational bounds and agreement with exact diagonalisation must hold for each operator and sector; tests check one model and one start.",
 ["include/dmrg.h", "sources/dmrg.cpp"],
 [("two_sites_update, one_step_lanczos, hamil2site_times_state, eig2x2Mat", "sources/dmrg.cpp"), ("compute_left_env / compute_right_env", "sources/dmrg.cpp")],
 ["returned energy, resulting network"])

prop("M01", "Model Hamiltonians and local operators equal their definitions",
 "For every length and every coupling, the model operators (spin-half Heisenberg and Hubbard chains, plain and charge-conserving) represent exactly the defining Hamiltonian on every pair of basis configurations: -J sum S_i.S_(i+1) for spins one half (basis up, down), and sum over neighbours and spins of (c+_i c_(i+1) + h.c.) + U sum n_up n_dn - mu sum (n_up + n_dn) for electrons (basis empty, up, dn, both, modes ordered site by site, up first). The charge-conserving forms have exactly the site space they are given, conserve its charges, and are refused exactly when the Hamiltonian does not conserve them or the space has another extent; no site, or couplings that are not scalars, are refused. The local operators (Pauli matrices, spin-half fermion operators, plain and with charges) equal their definitions exactly.",
 ["inputs"], "all lengths, couplings, charge labels of the site space and all matrix elements",
 "The network form hides sign, boundary and charge errors that a single ground-state energy does not reveal.",
 ["include/models.h", "sources/models.cpp", "include/operators.h", "sources/operators.cpp"],
 [("Heisenberg, Hubbard", "sources/models.cpp"), ("pauli, fermions", "sources/operators.cpp")],
 ["dense expansion of the returned operators"])

prop("P01", "Plain-tensor contraction and dimension tools equal their definitions",
 "The generalized contraction of plain tensors (in-place, out-of-place and into a given output) gives the scaled sum of the added tensor and the contraction over the listed dimensions for every rank, index list, memory layout and scale factor, refuses incompatible shapes, without disturbing its inputs. The dimension-list tools (splitting, grouping, reversing, concatenating and permuting lists of dimensions) return exactly the lists their documentation defines.",
 ["inputs"], "all ranks, dimension lists, permutations, scale factors and memory layouts",
 "Permutation bookkeeping must be right for each index list; tests use a couple of fixed lists.",
 ["include/tensorgdot.h", "sources/tensorgdot.cpp", "include/dimension_manip.h", "sources/dimension_manip.cpp"],
 [("tensorgdot, tensorgdot_, tensorgdot_out", "sources/tensorgdot.cpp"), ("reshape helpers, reverse, concat", "sources/dimension_manip.cpp")],
 ["returned tensors and lists"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
