#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
P = []
SP = "src/sparsexx/include/sparsexx/"
MA = "include/macis/"
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Sparse format conversions preserve the matrix",
  "Converting a sparse matrix between row-compressed, column-compressed and coordinate storage yields a well-formed matrix with the same shape, index base and exactly the same (row, column, value) entries. This holds for rectangular matrices, for either index base, and with empty leading, interior or trailing rows and columns.",
  ["inputs"], "every valid CSR, CSC or sorted COO matrix of any shape, index base and sparsity pattern",
  "The suite converts two small square matrices read from disk, without empty rows or columns; pointer arrays for empty lines, rectangular shapes and other bases are never exercised.",
  [SP+"matrix_types/conversions.hpp", SP+"matrix_types/coo_conversions.hpp", SP+"matrix_types/csr_matrix.hpp", SP+"matrix_types/csc_matrix.hpp", SP+"matrix_types/coo_matrix.hpp"],
  [("CSR<->CSC counting sort", SP+"matrix_types/conversions.hpp"), ("pointer arrays from sorted COO", SP+"matrix_types/conversions.hpp"), ("row index expansion", SP+"matrix_types/coo_conversions.hpp")])

p("C02", "Dense expansion of a sparse matrix is exact",
  "Expanding a row-compressed or coordinate sparse matrix into a column-major dense buffer stores every entry's value at its (row, column) position under the given leading dimension, whatever the index base. No other cell of the buffer is written, and a leading dimension smaller than the row count is rejected.",
  ["inputs"], "every valid CSR / COO matrix, index base, and leading dimension",
  "Tests expand one or two fixed matrices with a tight leading dimension.",
  [SP+"matrix_types/dense_conversions.hpp"],
  [("CSR dense expansion", SP+"matrix_types/dense_conversions.hpp"), ("COO dense expansion", SP+"matrix_types/dense_conversions.hpp")])

p("C03", "Sparse block product computes alpha*A*V + beta*AV",
  "For every row-compressed or coordinate sparse matrix and block of dense column vectors, the built-in product replaces each output entry by alpha times the exact sparse row sum plus beta times its old value. The index base, the number of columns and the leading dimensions do not change the mathematical result, and no element outside the rows-by-columns output block is modified.",
  ["inputs"], "every valid CSR / COO matrix (including rectangular, empty rows), every alpha, beta, K, LDV, LDAV",
  "One fixed matrix with one (alpha, beta), CSR only.",
  [SP+"spblas/spmbv.hpp"], [("CSR product", SP+"spblas/spmbv.hpp"), ("COO product", SP+"spblas/spmbv.hpp")])

p("C04", "Submatrix and upper-triangle extraction is exact",
  "Extracting a row/column window keeps exactly the entries inside it (re-based to the window's columns), the row-window/column-complement variant keeps exactly the entries of those rows outside the column range, and the upper-triangle variant keeps exactly the entries on or above the diagonal. Each result is a well-formed row-compressed matrix of the documented shape, with entries in their original order and the same index base.",
  ["inputs"], "every valid CSR matrix with sorted columns, every in-range window, every index base",
  "One matrix and one window are tested; empty rows, windows at the borders, and 0/1 bases are not.",
  [SP+"util/submatrix.hpp"], [("window extraction", SP+"util/submatrix.hpp"), ("column complement extraction", SP+"util/submatrix.hpp"), ("upper triangle", SP+"util/submatrix.hpp"), ("row counts / row pointers", SP+"util/submatrix.hpp")])

p("C05", "Diagonal extraction and trace agree with the matrix",
  "The extracted diagonal holds, for every row, the stored diagonal value or zero when the row stores none, and the trace is the sum of the stored diagonal values. Both are independent of index base and of where in the row the diagonal entry is stored.",
  ["inputs"], "every valid CSR matrix with at most one diagonal entry per row, any base",
  "A single fixed matrix is tested.",
  [SP+"util/submatrix.hpp"], [("diagonal lookup", SP+"util/submatrix.hpp"), ("trace", SP+"util/submatrix.hpp")])

p("C06", "Adjacency graph is the off-diagonal sparsity pattern",
  "The adjacency graph of a sparse matrix lists, for every row and in storage order, exactly the column indices of that row's off-diagonal entries, with a consistent row-pointer array. The requested output index base applies to both arrays, whatever the base of the input.",
  ["inputs"], "every valid CSR matrix with at most one diagonal entry per row, every input/output base",
  "One fixed graph with one base pair is tested.",
  [SP+"util/graph.hpp"], [("adjacency extraction", SP+"util/graph.hpp")])

p("C07", "Permutation utilities relabel without losing entries",
  "Inverting a permutation gives its two-sided inverse; permuting a vector forward scatters and backward gathers, so they undo each other. Permuting rows, columns, or both of a sparse matrix yields a well-formed matrix that holds exactly the original values at the relabelled positions, with every row's columns in ascending order after a column permutation.",
  ["inputs"], "every permutation and every valid CSR matrix / vector",
  "No test covers these utilities.",
  [SP+"util/permute.hpp"], [("invert", SP+"util/permute.hpp"), ("vector permutation", SP+"util/permute.hpp"), ("row / column permutation", SP+"util/permute.hpp"), ("permutation from partition", SP+"util/permute.hpp")])

p("C08", "Row distribution tiles the matrix exactly once",
  "For every number of processes and matrix size, the default row distribution assigns each global row to exactly one process as contiguous, ordered ranges covering all rows; a custom distribution is accepted only if it does the same. A process's diagonal and off-diagonal tiles together hold exactly the entries of its own rows, and copying a distributed matrix preserves its distribution.",
  ["inputs", "configurations"], "every process count and rank, matrix shape, default or custom row ranges",
  "Tests run on one fixed communicator size and never compare row ranges for uneven splits.",
  [SP+"matrix_types/dist_sparse_matrix.hpp"], [("default partition", SP+"matrix_types/dist_sparse_matrix.hpp"), ("custom partition validation", SP+"matrix_types/dist_sparse_matrix.hpp"), ("tile construction", SP+"matrix_types/dist_sparse_matrix.hpp")])

p("C09", "Re-basing, sorting and symmetrising keep the matrix",
  "Changing the index base of a compressed matrix shifts every stored index and pointer consistently and nothing else. Sorting a coordinate matrix by rows or by columns reorders its entries into lexicographic order without losing, duplicating or altering any of them. Expanding a triangle adds exactly the mirrored off-diagonal entries and leaves full and diagonal matrices unchanged, with the recorded entry count equal to the stored entries.",
  ["inputs"], "every valid matrix, base change, and triangular pattern (with or without a full diagonal)",
  "Only exercised indirectly by reading two files.",
  [SP+"matrix_types/csr_matrix.hpp", SP+"matrix_types/csc_matrix.hpp", SP+"matrix_types/coo_matrix_ops.hpp", SP+"matrix_types/coo_matrix.hpp"],
  [("index base change", SP+"matrix_types/csr_matrix.hpp"), ("sorts", SP+"matrix_types/coo_matrix_ops.hpp"), ("triangle expansion", SP+"matrix_types/coo_matrix_ops.hpp")])

p("C10", "Determinant bit-string primitives are exact",
  "On determinant bit strings of every supported width, first/last set-bit search, mask generation, truncation, expansion, half-word extraction, integer conversion and ordering agree with their bitwise definitions; ordering is the numeric order of the bit strings. Converting a bit string to an index list gives exactly its set positions in ascending order.",
  ["inputs"], "every bit string of widths 32, 64, 96, 128 and 256 and every mask length",
  "Unit tests (which do not even build offline) sample a handful of strings out of 2^128.",
  [MA+"bitset_operations.hpp"], [("bit scans", MA+"bitset_operations.hpp"), ("masks", MA+"bitset_operations.hpp"), ("index lists", MA+"bitset_operations.hpp"), ("width changes", MA+"bitset_operations.hpp"), ("ordering", MA+"bitset_operations.hpp")])

p("C11", "Excitation lists hold every excited determinant once",
  "The occupied/virtual split of a determinant lists exactly its set and unset orbitals below the orbital count, in ascending order. The single and double excitation generators (spin-orbital and spin-resolved) return exactly the determinants that differ from the reference by moving one or two electrons from occupied to virtual orbitals (conserving each spin's electron count in the spin-resolved case), each exactly once.",
  ["inputs"], "every determinant and every orbital count up to the bit-string width",
  "Tests enumerate excitations of two or three fixed determinants.",
  [MA+"sd_operations.hpp"], [("occupied/virtual split", MA+"sd_operations.hpp"), ("singles / doubles", MA+"sd_operations.hpp"), ("spin-resolved generators", MA+"sd_operations.hpp"), ("reference determinant", MA+"sd_operations.hpp")])

p("C12", "Excitation phases follow fermionic ordering",
  "The phase of a single excitation is minus one to the number of electrons strictly between the two orbitals, independent of direction. For connected determinant pairs the index helpers report the annihilated and created orbitals, and the double-excitation phase is the product of the phases of the two successive single excitations.",
  ["inputs"], "every determinant and every orbital pair / connected pair of determinants at widths 32 and 64",
  "The functions are marked as untested in the source.",
  [MA+"sd_operations.hpp"], [("single phase", MA+"sd_operations.hpp"), ("index + phase helpers", MA+"sd_operations.hpp")])

p("C13", "Determinant text encoding is a faithful round trip",
  "Writing a determinant as its occupation string gives one character per spatial orbital that states empty, alpha, beta or double occupation, and parsing that string returns the same determinant. Distinct determinants therefore have distinct strings.",
  ["inputs"], "every determinant of widths 64 and 128",
  "Only a few strings are sampled.",
  [MA+"sd_operations.hpp", MA+"wavefunction_io.hpp"], [("encode", MA+"sd_operations.hpp"), ("decode", MA+"sd_operations.hpp")])

p("C14", "Hamiltonian matrix elements follow the Slater-Condon rules",
  "For every pair of determinants of equal electron count in each spin the matrix element is zero beyond double excitations and otherwise equals the phase times the one- and two-electron integral combination of the rule for that excitation class and spin case. The class is chosen from the per-spin difference alone, so swapping the roles of the spins gives the matching beta-spin element.",
  ["inputs"], "every pair of determinants of equal electron count per spin and all integrals",
  "Tests compare a few elements of one molecule.",
  [MA+"hamiltonian_generator/matrix_elements.hpp", MA+"sd_operations.hpp"], [("dispatch on excitation class", MA+"hamiltonian_generator/matrix_elements.hpp"), ("class formulas", MA+"hamiltonian_generator/matrix_elements.hpp")])

p("C15", "Fast diagonal updates equal a full recomputation",
  "For integrals with the symmetry of real orbitals, V(i,i,j,j) = V(j,j,i,i), the diagonal energy of a singly or doubly excited determinant obtained by updating the reference's diagonal energy equals the diagonal energy computed from scratch for the excited determinant, for same-spin and opposite-spin excitations. The orbital-energy list and the single-orbital energies used for the update agree with each other.",
  ["inputs"], "every reference occupation, hole/particle choice, and integrals",
  "Checked on one determinant of one molecule.",
  [MA+"hamiltonian_generator/fast_diagonals.hpp", MA+"hamiltonian_generator/matrix_elements.hpp"], [("orbital energies", MA+"hamiltonian_generator/fast_diagonals.hpp"), ("diagonal updates", MA+"hamiltonian_generator/fast_diagonals.hpp"), ("full diagonal", MA+"hamiltonian_generator/matrix_elements.hpp")])

p("C16", "Integral intermediates match their definitions",
  "After loading two-electron integrals, the antisymmetrised tensor and every reduced two- and three-index tensor equal their defining combination of the integrals at every index, and integrals of inconsistent dimensions are rejected. The input integrals are unchanged.",
  ["inputs"], "every orbital count and integral tensor",
  "Only spot elements of one molecule are compared.",
  [MA+"hamiltonian_generator/impl.hpp"], [("intermediate generation", MA+"hamiltonian_generator/impl.hpp")])

p("C17", "Density-matrix contributions follow the excitation class",
  "A weighted pair of determinants of equal electron count in each spin adds to the one- and two-particle density matrices exactly the terms of its excitation class: double excitations contribute only two-particle terms, single excitations and diagonal pairs contribute one- and two-particle terms, and more than double excitations contribute nothing. A request without a two-particle matrix gives the same one-particle matrix and writes nothing else.",
  ["inputs"], "every pair of determinants of equal electron count per spin, every weight, with and without a two-particle matrix",
  "Tests compare energies/traces for one molecule, so compensating errors pass.",
  [MA+"hamiltonian_generator/rdms.hpp", MA+"util/rdms.hpp"], [("class dispatch", MA+"util/rdms.hpp"), ("class contributions", MA+"util/rdms.hpp")])

p("C18", "Fock matrices and active-space Hamiltonian match definitions",
  "The inactive, active, auxiliary and generalised Fock matrices, the active-space one- and two-body Hamiltonian, the canonical orbital energies and the inactive and Fock energies equal their defining sums over integrals and density matrices for every orbital partition and leading dimension. Only the documented output block is written.",
  ["inputs"], "every inactive/active/virtual split, integrals, densities, and leading dimensions",
  "Tests use one molecule with tight leading dimensions.",
  ["src/macis/fock_matrices.cxx", "src/macis/orbital_energies.cxx"], [("Fock builds", "src/macis/fock_matrices.cxx"), ("energies", "src/macis/fock_matrices.cxx"), ("orbital energies", "src/macis/orbital_energies.cxx")])

p("C19", "Orbital-rotation packing is a faithful antisymmetric map",
  "Unpacking a linear orbital-rotation vector writes an antisymmetric matrix in its virtual-inactive, virtual-active and active-inactive blocks, and packing that matrix returns the vector. The orbital gradient of a generalised Fock matrix is twice its antisymmetric part in the same order, and no other matrix element is written.",
  ["inputs"], "every inactive/active/virtual split, vector, and leading dimension",
  "Tests use one orbital split.",
  ["src/macis/orbital_rotation_utilities.cxx", MA+"util/orbital_rotation_utilities.hpp"], [("unpack", "src/macis/orbital_rotation_utilities.cxx"), ("pack", "src/macis/orbital_rotation_utilities.cxx"), ("gradient", "src/macis/orbital_rotation_utilities.cxx"), ("linear split", MA+"util/orbital_rotation_utilities.hpp")])

p("C20", "Two- and four-index transforms contract every index",
  "The two-index transform equals the coefficient-transposed contraction of the input with the coefficients on both indices, and the four-index transform the same on all four indices, for every old and new dimension. Each output element is the full sum, and the output is stored column-major.",
  ["inputs"], "every old/new dimension, tensor, coefficient matrix and leading dimension",
  "Tests use one dimension pair with tight leading dimensions.",
  ["src/macis/transform.cxx"], [("two-index transform", "src/macis/transform.cxx"), ("four-index quarter transforms", "src/macis/transform.cxx")])

p("C21", "Perturbation and orbital-Hessian tensors match definitions",
  "The second-order amplitudes and density matrix, the approximate diagonal orbital Hessian, the preconditioned orbital step, and the one-index-transformed Hamiltonian equal their defining expressions for every orbital partition and leading dimension. Only the documented output block is written.",
  ["inputs"], "every orbital split, integrals, densities and leading dimensions",
  "Tests use one molecule with equal leading dimensions.",
  ["src/macis/moller_plesset.cxx", "src/macis/orbital_hessian.cxx", "src/macis/orbital_steps.cxx"], [("MP2", "src/macis/moller_plesset.cxx"), ("Hessian", "src/macis/orbital_hessian.cxx"), ("step", "src/macis/orbital_steps.cxx")])

p("C22", "Search contributions merge to one entry per determinant",
  "Accumulating a list of determinant contributions leaves exactly one entry per distinct determinant, in ascending determinant order, whose score is the sum of that determinant's original scores. The keep-largest variant leaves one entry per determinant holding its largest score, and reordering by coefficient permutes determinants and coefficients together into descending magnitude.",
  ["inputs"], "every list of contributions / wave function",
  "Tests merge one short hand-written list.",
  [MA+"asci/determinant_sort.hpp"], [("accumulate", MA+"asci/determinant_sort.hpp"), ("keep largest", MA+"asci/determinant_sort.hpp"), ("reorder", MA+"asci/determinant_sort.hpp")])

p("C23", "Search constraints split excitations without gaps or overlap",
  "Every determinant with enough electrons satisfies exactly one highest-orbital constraint, and for a given constraint the generated single and double excitations of a determinant are exactly its excitations that satisfy the constraint, each once. The counting routines used for load balancing return the number of excitations the generators produce.",
  ["inputs"], "every determinant, constraint and orbital count",
  "Tests check one determinant against a small set of constraints.",
  [MA+"asci/mask_constraints.hpp"], [("constraint masks", MA+"asci/mask_constraints.hpp"), ("constrained excitations", MA+"asci/mask_constraints.hpp"), ("counts", MA+"asci/mask_constraints.hpp")])

p("C24", "Distributed selection finds the k-th element",
  "For data spread over any number of processes the distributed selection returns the element of rank k in the given order, the same on every process, including with duplicated elements. The three-way partition it uses keeps all elements and orders them as less, equal, greater.",
  ["inputs", "configurations"], "every distribution of data over processes, every k, and ordering",
  "Tests draw random data on one communicator.",
  [MA+"util/dist_quickselect.hpp"], [("three-way partition", MA+"util/dist_quickselect.hpp"), ("global counts and offsets", MA+"util/dist_quickselect.hpp")])

p("C25", "Sparse Hamiltonian holds exactly the significant elements",
  "The assembled sparse Hamiltonian block is a well-formed zero-based row-compressed matrix with ascending columns that stores, for each pair of non-empty determinants, the matrix element exactly when its magnitude exceeds the threshold (a threshold of zero or more); a pair with an empty determinant (no electrons at all) is never stored. Empty bra or ket ranges give a zero-based matrix of the right shape without elements.",
  ["inputs"], "every pair of determinant lists, integrals and threshold",
  "One molecule and threshold are tested.",
  [MA+"hamiltonian_generator/double_loop.hpp", MA+"csr_hamiltonian.hpp"], [("block assembly", MA+"hamiltonian_generator/double_loop.hpp"), ("range handling", MA+"csr_hamiltonian.hpp")])

p("C26", "Binary density-matrix files round-trip",
  "Writing one- and two-particle density matrices to a binary file and reading them back gives the same values for every orbital count and every pair of leading dimensions. A file written for another orbital count is rejected.",
  ["inputs"], "every orbital count and leading dimensions of writer and reader",
  "One molecule with tight leading dimensions.",
  ["src/macis/fcidump.cxx"], [("packing and unpacking", "src/macis/fcidump.cxx")])

p("C27", "Distributed product exchanges exactly the needed vector entries",
  "The communication plan of a distributed matrix lists each remote column its local rows need exactly once, grouped by owning process, with offsets matching the counts; what one process plans to send is what the other plans to receive. The distributed product then equals the serial one.",
  ["inputs", "configurations", "schedules"], "every distribution, sparsity pattern and process count",
  "One matrix and communicator size.",
  [SP+"spblas/pspmbv.hpp"], [("plan", SP+"spblas/pspmbv.hpp"), ("pack / unpack", SP+"spblas/pspmbv.hpp")])

p("C28", "Davidson returns a converged eigenpair, on any number of processes",
  "When the serial or distributed Davidson solver reports success, the returned energy is the lowest Ritz value of the last subspace, the returned vector is its Ritz vector (on every process its own rows), and the norm of A x - E x over all processes is below the requested tolerance; the subspace stays within its limit, and the solver gives up only if no step converged. The solver orthogonalises each new vector against all earlier ones over all processes. The generated guess is one in the row of the first smallest diagonal element (on the process that owns it) and zero elsewhere in the distributed case. The selected-CI diagonalisation builds the Hamiltonian of the given determinants with the given threshold, starts from the passed coefficients if the largest of them over all processes exceeds one over the dimension and from the guess otherwise, passes tolerance and subspace limit on, and hands back the solver's energy and each process's own rows of its vector, also on processes without rows.",
  ["inputs", "configurations"], "every symmetric matrix, guess, tolerance, subspace limit, row partition and number of processes",
  "Tests use one operator from one guess; which process owns the guess, where the residual is summed, and the subspace bookkeeping differ with each partition and number of steps.",
  [MA+"solvers/davidson.hpp", MA+"solvers/selected_ci_diag.hpp"], [("Davidson", MA+"solvers/davidson.hpp"), ("selected-CI diagonalisation", MA+"solvers/selected_ci_diag.hpp")])

p("C29", "Text matrix and integral files round-trip",
  "Reading a matrix-market, FCIDUMP or wave-function text file that the library wrote returns the same object up to the printed precision.",
  ["inputs"], "every matrix, integral set and wave function",
  "Two fixtures are read.",
  [SP+"io/read_mm.hpp", SP+"io/write_mm.hpp", "src/macis/fcidump.cxx", MA+"wavefunction_io.hpp"], [("matrix market", SP+"io/read_mm.hpp"), ("FCIDUMP", "src/macis/fcidump.cxx")])

p("C30", "Collective operations complete on every process",
  "Distributed construction, search and products never deadlock: every process reaches the same sequence of collective operations and every posted message is matched.",
  ["schedules", "configurations"], "every process count and interleaving",
  "Tests run a single schedule.",
  [SP+"spblas/pspmbv.hpp", MA+"util/dist_quickselect.hpp"], [("message matching", SP+"spblas/pspmbv.hpp")])

p("C31", "The ASCI search scores every connected determinant once",
  "For each search determinant the search produces one contribution for every single and double excitation whose coupling reaches the screening threshold and none for any other determinant; the constrained search produces those whose excited string satisfies the constraint. A contribution's score is the coefficient times the Hamiltonian element between the two determinants over the difference of the search energy and the excited determinant's diagonal element. Over all processes the constrained search reports every such determinant once with its summed score, and outgrowing the pair limit drops only contributions that are not above the pruning tolerance.",
  ["inputs", "configurations"], "every search determinant, integral tensor, threshold, constraint, and number of processes",
  "Tests compare a handful of final energies of complete ASCI runs.",
  [MA+"asci/determinant_contributions.hpp", MA+"asci/mask_constraints.hpp", MA+"asci/determinant_search.hpp"], [("standard expansion", MA+"asci/determinant_contributions.hpp"), ("constrained expansion", MA+"asci/mask_constraints.hpp"), ("search over determinants", MA+"asci/determinant_search.hpp")])

p("C32", "ASCI keeps the best determinants and returns results that belong together",
  "The ASCI search returns the determinants it started from together with the highest-scoring determinants it reached: never more than asked for, none twice, everything with a non-zero score if it fits and otherwise nothing left out that scores higher than something kept, the same on every process. An iteration step searches from the determinants with the largest coefficients, each with its own coefficient, diagonalises in the space found and returns that energy with one coefficient per determinant on every process. Growth and refinement therefore return an energy, determinants and coefficients that belong together, also after an orbital rotation; growth reaches the requested size, refinement keeps the size and stops at the first energy change below its tolerance, and both report failure otherwise.",
  ["inputs", "configurations", "histories"], "every wavefunction, Hamiltonian, settings, number of steps and number of processes",
  "Tests run one molecule with fixed settings and compare a final energy; what is dropped by the selection, the hand-over between steps and the rotated growth are not observed.",
  [MA+"asci/determinant_search.hpp", MA+"asci/iteration.hpp", MA+"asci/grow.hpp", MA+"asci/refine.hpp", MA+"solvers/selected_ci_diag.hpp"], [("selection", MA+"asci/determinant_search.hpp"), ("step", MA+"asci/iteration.hpp"), ("growth with rotation", MA+"asci/grow.hpp"), ("refinement", MA+"asci/refine.hpp")])

p("C33", "Binary sparse-matrix files round-trip",
  "Writing a coordinate or compressed-row sparse matrix as binary triplets and reading it back gives a matrix of the same shape with exactly the entries written, sorted by rows and then columns, and with the same number of entries; a square file that holds only one triangle is read as the symmetric matrix it stands for, with every off-diagonal entry mirrored once. Indices keep their base, which the reader recognises whenever it is one or an entry lies in the first row or column. Writer and reader agree on the order, number and size of the blocks of the file, and writing replaces an older file.",
  ["inputs"], "every shape, pattern (empty rows, one triangle, diagonal), index base and order of stored entries",
  "No test writes such a file.",
  [SP+"io/write_binary_triplets.hpp", SP+"io/read_binary_triplets.hpp", SP+"matrix_types/coo_matrix.hpp"], [("writers", SP+"io/write_binary_triplets.hpp"), ("reader", SP+"io/read_binary_triplets.hpp"), ("index base", SP+"matrix_types/coo_matrix.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
