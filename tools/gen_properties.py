#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
I = "include/macis/"
S = "src/sparsexx/include/sparsexx/"

prop("D01", "Bit-string primitives are exact at every width and bit position",
 "For every supported determinant width, find-first-set and find-last-set (of non-empty patterns), population count, conversion to and from machine words, half truncation/expansion, index-list conversion, bit masks and the strict ordering agree with the plain per-bit definition for every bit pattern. The ordering is a strict weak order equal to comparison as unsigned integers, so sorting and searching determinants is always consistent.",
 ["inputs"], "all bit patterns of widths 32, 64, 128 and 256, including all-zero, all-one, single-bit at every position and word-boundary patterns",
 "The unit tests use a handful of patterns per width and the word-specialised branches (exactly one word, two words, more) and boundary bits are mostly unsampled; none of those tests is even compiled by the offline build.",
 [I+"bitset_operations.hpp"], [("width-specialised bit tricks", I+"bitset_operations.hpp")],
 ["return values of the bit-string helpers"])
prop("D02", "Excitation and Hilbert-space enumerations are complete and duplicate-free",
 "From any determinant and orbital count, the generated occupied/virtual lists, singles, doubles, spin-separated singles+doubles, CIS and CISD sets contain exactly the determinants of that excitation class, each once, with electron number per spin conserved and no orbital outside the active window. Full and doubly-restricted Hilbert-space generation yields exactly all C(norb,nalpha)*C(norb,nbeta) determinants, and residue generation yields exactly the determinants obtained by removing electrons.",
 ["inputs"], "all determinants, orbital counts up to the half width, electron counts from zero to full occupation and active-space offsets",
 "The tests check counts or a few literal lists for one or two determinants; full/empty occupation, half-width boundaries and offsets are not sampled.",
 [I+"sd_operations.hpp"], [("excitation enumeration", I+"sd_operations.hpp")],
 ["the returned determinant vectors"])
prop("D03", "Canonical strings and wavefunction files round-trip losslessly",
 "Converting any determinant to its canonical occupation string and back is the identity and each character states the occupation of that orbital. Writing a wavefunction (determinants and coefficients) to file and reading it back returns the same determinants in the same order, every coefficient bit for bit, with a header carrying the orbital and electron counts, and reading a canonical string never invents or drops electrons.",
 ["inputs"], "all determinants, orbital counts, coefficient magnitudes/signs and wavefunction lengths",
 "One fixed small wavefunction file is read in the tests; writing is never compared with reading for arbitrary input.",
 [I+"sd_operations.hpp", I+"wavefunction_io.hpp"], [("string conversion", I+"sd_operations.hpp"), ("file IO", I+"wavefunction_io.hpp")],
 ["file contents", "determinants and coefficients read back"])
prop("H01", "Hamiltonian matrix elements equal the second-quantised definition",
 "For every pair of determinants and any one- and two-electron integrals with the usual permutational symmetry, the computed matrix element equals the expectation of the second-quantised Hamiltonian (sign included), is symmetric under exchange of bra and ket, and vanishes when they differ by more than two electrons. The incremental diagonal formulas (from orbital energies for single and double excitations) agree with the direct diagonal element of the excited determinant.",
 ["inputs"], "all pairs of determinants of equal electron counts, all symmetric integral tensors, norb up to the half width",
 "The tests use one water integral file and check a few elements against literals; arbitrary integrals, sign patterns across word boundaries and half-width orbitals are out of reach.",
 [I+"hamiltonian_generator.hpp", I+"hamiltonian_generator/matrix_elements.hpp", I+"hamiltonian_generator/fast_diagonals.hpp", I+"sd_operations.hpp", I+"hamiltonian_generator/impl.hpp"],
 [("Slater-Condon rules with pre-contracted integrals", I+"hamiltonian_generator/matrix_elements.hpp"), ("fast diagonals", I+"hamiltonian_generator/fast_diagonals.hpp")],
 ["matrix element return values"])
prop("H02", "Sparse Hamiltonian blocks reproduce the dense matrix, serially and distributed",
 "The sparse Hamiltonian block built for any bra list, ket list and threshold has exactly the entries of magnitude above the threshold at the right (row, column), columns sorted, rows consistent, and equal values, for either index width. The distributed construction over any number of processes is the same matrix row-partitioned, every stored entry belonging to exactly one process's diagonal or off-diagonal part.",
 ["inputs", "configurations"], "all determinant lists (including non-square, unsorted, single-row and empty-process cases), thresholds, index types and 1..5+ ranks",
 "The tests build one matrix for one ground-state determinant list on at most two ranks, from a file, and compare with stored norms.",
 [I+"hamiltonian_generator/double_loop.hpp", I+"csr_hamiltonian.hpp", I+"hamiltonian_generator.hpp"], [("double loop CSR assembly", I+"hamiltonian_generator/double_loop.hpp"), ("row distribution", I+"csr_hamiltonian.hpp")],
 ["the CSR arrays returned"])
prop("H03", "Reduced density matrices reproduce the wavefunction's expectation values",
 "For any CI vector over any determinant list, the one- and two-body density matrices produced give, element by element, the second-quantised expectation values (trace equals the electron count for a normalised vector) and contracting them with the integrals returns the Hamiltonian expectation value. Restricting the bra list to a prefix of the ket list gives exactly that part of the sum, results accumulate onto the buffers they are given, and computing only the one-body matrix gives the same result as the full pass.",
 ["inputs"], "all determinant lists, real coefficient vectors (with zeros), block splits and symmetric integrals",
 "Existing tests contract one stored ground state; random vectors, sub-blocks and the one-body-only path are not sampled.",
 [I+"hamiltonian_generator/rdms.hpp", I+"hamiltonian_generator/double_loop.hpp", I+"util/rdms.hpp"], [("RDM contributions", I+"util/rdms.hpp")],
 ["density-matrix output buffers"])
prop("H04", "Natural-orbital rotation is a similarity transform of the Hamiltonian",
 "Rotating the Hamiltonian with any one-body density matrix rotates the integrals by an orthogonal matrix that diagonalises that density with occupations in order, so the full-space spectrum is unchanged, the integrals keep their permutational symmetry, and every later matrix element, diagonal shortcut or sparse block uses the rotated integrals consistently.",
 ["inputs", "histories"], "all density matrices (incl. degenerate occupations), integrals and repeated rotations",
 "No existing test checks spectrum invariance or consistency of cached intermediates after rotation.",
 [I+"hamiltonian_generator/impl.hpp", I+"hamiltonian_generator.hpp", "src/macis/transform.cxx"], [("rotation and intermediate regeneration", I+"hamiltonian_generator/impl.hpp")],
 ["spectrum and matrix elements before and after"])
prop("E01", "Selected-CI and Davidson solvers return the lowest eigenpair, on any rank count",
 "For any symmetric (sparse) matrix and admissible starting guess, the iterative eigensolver that reports convergence returns a normalised vector whose residual is within the requested tolerance; started from the lowest diagonal element (or a vector near the lowest eigenvector) its eigenvalue is the lowest one of the block of the matrix connected to the guess, from any other guess it is an eigenpair. With a subspace as large as the matrix it converges on every well-conditioned problem. The distributed solver and the selected-CI driver give the same eigenvalue on any number of processes, every process owning the matching piece of the eigenvector.",
 ["inputs", "configurations"], "symmetric matrices (well and badly conditioned, degenerate, near-diagonal), subspace limits, guesses and 1..5 ranks",
 "Tests run a single stored matrix; convergence criterion, subspace exhaustion, guesses and rank counts are not quantified over.",
 [I+"solvers/davidson.hpp", I+"solvers/selected_ci_diag.hpp"], [("Davidson iteration", I+"solvers/davidson.hpp"), ("driver", I+"solvers/selected_ci_diag.hpp")],
 ["eigenvalue, eigenvector, iteration count"])
prop("E02", "LOBPCG returns the lowest eigenpairs of the operator pencil it is given",
 "Whenever the block eigensolver returns successfully, its vectors are orthonormal, its eigenvalues are ascending, the residual of every converged pair is within the requested criterion, and the values are the lowest ones of the operator (for dimensions of at least about five block widths). Every exposed norm, convergence helper and block-orthogonalisation step agrees with its mathematical definition.",
 ["inputs"], "symmetric operators, block sizes, preconditioners and random starts",
 "The bundled library has no compiled numerical test of the driver in this build.",
 ["src/lobpcgxx/include/lobpcgxx/driver.hpp", "src/lobpcgxx/include/lobpcgxx/convergence.hpp", "src/lobpcgxx/include/lobpcgxx/operator.hpp"], [("LOBPCG driver", "src/lobpcgxx/include/lobpcgxx/driver.hpp")],
 ["eigenvalues, eigenvectors, residuals"])
prop("E03", "CASCI energies and densities are exact in the complete active space",
 "The complete-active-space solver returns the exact lowest eigenvalue of the Hamiltonian in the chosen (nalpha, nbeta) sector, among the states not orthogonal by symmetry to the lowest determinant the iteration starts from, and the density matrices it returns reproduce that energy, have the right electron count and are the same on any number of processes.",
 ["inputs", "configurations"], "active spaces, electron counts (open shell, no beta electrons), integrals and rank counts",
 "One molecule is covered by tests that are not compiled in this environment.",
 [I+"util/cas.hpp", I+"solvers/selected_ci_diag.hpp", I+"util/rdms.hpp"], [("CASCI driver", I+"util/cas.hpp")],
 ["energy, 1-RDM, 2-RDM"])
prop("A01", "Determinant constraints partition the excitation space exactly",
 "For any constraint level, the constraint set used to divide the determinant search assigns every determinant to exactly one constraint, and the constrained generation of singles and doubles yields, over all constraints, each excitation of a determinant exactly once with the value its unconstrained counterpart would have. Histogram counts equal the number of determinants actually generated, and distributing constraints over processes loses and duplicates none.",
 ["inputs", "configurations"], "determinants, orbital counts, constraint sizes (triplets, quadruplets, ...), process counts",
 "The tests compare counts for one HF determinant at one orbital count.",
 [I+"asci/mask_constraints.hpp", I+"asci/determinant_contributions.hpp"], [("mask constraints", I+"asci/mask_constraints.hpp")],
 ["constraint lists and generated determinant arrays"])
prop("A02", "ASCI search selects exactly the best-scoring determinants",
 "The determinant search returns exactly the requested number (or all available) of distinct determinants, consisting of those with the largest accumulated perturbative scores among all connected determinants, the scores being the coefficient-weighted coupling sums divided by the energy denominators. Beyond ties and contributions below the screening tolerance, the selection does not depend on the number of processes, constraint level, batching or memory limits.",
 ["inputs", "configurations"], "seed wavefunctions, sizes, integrals, tolerances, constraint levels, rank counts",
 "One molecule is tested by comparing final energies to literals on at most two ranks.",
 [I+"asci/determinant_search.hpp", I+"asci/determinant_contributions.hpp", I+"asci/determinant_sort.hpp"], [("search", I+"asci/determinant_search.hpp"), ("score accumulation", I+"asci/determinant_sort.hpp")],
 ["returned determinant list"])
prop("A03", "ASCI grow and refine keep energy, coefficients and determinants consistent",
 "Growing reaches exactly the requested determinant count (or fails loudly), refining keeps the count, and each returned energy is the lowest eigenvalue (among states not orthogonal by symmetry to the lowest determinant) of the Hamiltonian over the returned determinants in the orbital basis the returned coefficients refer to, with coefficients the matching normalised eigenvector. Results are independent of the number of processes.",
 ["inputs", "configurations", "histories"], "integrals, growth factors, core sizes, natural-orbital rotation on/off, rank counts",
 "Tests check one molecule's final energy.",
 [I+"asci/grow.hpp", I+"asci/refine.hpp", I+"asci/iteration.hpp"], [("grow/refine loops", I+"asci/grow.hpp")],
 ["energy, determinant list, coefficient vector"])
prop("A04", "Distributed quickselect returns the exact order statistic",
 "For every distribution of values over processes (including empty processes, duplicates and all-equal data), every rank k from 1 to the number of values and either comparison, the distributed selection returns on all processes the value a full sort would place at that rank, leaving the multiset of the data unchanged, and terminates.",
 ["inputs", "configurations"], "data distributions, duplicates, k, comparators, rank counts 1..6",
 "Test uses random ints of one size on two ranks with two comparators; ties, empty ranks and extreme k unsampled.",
 [I+"util/dist_quickselect.hpp"], [("quickselect", I+"util/dist_quickselect.hpp")],
 ["returned value and data"])
prop("O01", "Integral transformations equal the full tensor contraction",
 "One- and two-index (one-electron) and four-index (two-electron) transformations of any tensor with any rectangular coefficient matrix and any leading dimensions equal the direct contraction, write only the addressed output region, leave inputs unchanged and, for square transformations, may be done in place; transforming with orthogonal matrices and back is the identity.",
 ["inputs"], "dimensions (square and rectangular), leading dimensions, coefficients",
 "Tests use identity, permutation and sub-permutation matrices only, so most index transpositions and padding are invisible.",
 ["src/macis/transform.cxx", I+"util/transform.hpp"], [("GEMM-based transforms", "src/macis/transform.cxx")],
 ["output buffers"])
prop("O02", "Active-space folding and Fock/energy assembly conserve the energy",
 "Folding inactive orbitals into an effective active-space Hamiltonian conserves energy: the inactive energy plus any active-space expectation value equals the full-space expectation value of the corresponding wavefunction. Inactive, active, auxiliary-Q and generalised Fock matrices, and energies computed from them or from density matrices, equal their defining contractions for every inactive/active/virtual split.",
 ["inputs"], "splits (no inactive, no virtual, all active), symmetric integrals, density matrices",
 "One fixed water case with stored norms is in a test not compiled offline.",
 [I+"util/fock_matrices.hpp", "src/macis/fock_matrices.cxx"], [("Fock builders", "src/macis/fock_matrices.cxx")],
 ["output matrices and energies"])
prop("O03", "Orbital gradient, Hessian diagonal and steps match the energy they linearise",
 "The analytic orbital gradient equals the derivative of the CASSCF energy with respect to each non-redundant orbital rotation, the diagonal Hessian equals its defining formula, rotation parameters round-trip between packed and full antisymmetric forms, and the orbital rotation built from them is orthogonal and equals the matrix exponential. Precondition/quasi-Newton orbital steps are descent directions.",
 ["inputs"], "orbital splits, integrals, densities, rotation parameters (also large ones)",
 "Tests never differentiate the energy numerically for arbitrary integrals.",
 ["src/macis/orbital_gradient.cxx", "src/macis/orbital_hessian.cxx", "src/macis/orbital_rotation_utilities.cxx", "src/macis/orbital_steps.cxx", I+"util/orbital_gradient.hpp", I+"util/orbital_hessian.hpp", I+"util/orbital_rotation_utilities.hpp"], [("gradient assembly", "src/macis/orbital_gradient.cxx")],
 ["gradient, Hessian, rotation matrices"])
prop("O04", "A converged CASSCF result is a stationary point with a consistent energy",
 "When the CASSCF driver returns before its iteration limit, the integrals it leaves behind are an orthogonal transform of the input, the returned energy equals the CASCI energy of those integrals plus core terms, the orbital gradient is below the requested tolerance and the energy is not above the initial CASCI energy.",
 ["inputs", "configurations"], "integrals, orbital splits, settings (quasi-Newton, DIIS), rank counts",
 "Tests only compare energies for stored molecules.",
 [I+"util/mcscf.hpp", I+"util/mcscf_impl.hpp"], [("MCSCF loop", I+"util/mcscf_impl.hpp")],
 ["final energy, integrals, densities"])
prop("O05", "MP2 amplitudes, energy and density follow their definitions",
 "For any closed-shell canonical orbital set, the computed canonical orbital energies, MP2 amplitudes (T2) and unrelaxed one-body density equal their closed-form definitions, the density's trace equals the electron count, and natural-orbital occupations derived from it lie where the definition puts them.",
 ["inputs"], "orbital splits, symmetric integrals with a gap, leading dimensions",
 "One stored molecule is used in a test not compiled offline.",
 ["src/macis/moller_plesset.cxx", I+"util/moller_plesset.hpp", "src/macis/orbital_energies.cxx"], [("MP2 kernels", "src/macis/moller_plesset.cxx")],
 ["T2, density buffers"])
prop("O06", "Numerical optimisers only report minima and keep their invariants",
 "DIIS extrapolation returns exactly the least-squares combination (coefficients summing to one) of the retained history in first-in-first-out order. Quasi-Newton minimisation either reports failure or returns a point whose gradient is below tolerance and whose energy does not exceed the start, and line searches return steps satisfying their advertised sufficient-decrease/curvature conditions.",
 ["inputs", "histories"], "history lengths, vector sizes, objective functions, starting points",
 "No compiled test exercises these helpers.",
 [I+"util/diis.hpp", "src/macis/bfgs/bfgs.hpp", "src/macis/bfgs/line_search.hpp", "src/macis/bfgs/bfgs_hessian.hpp"], [("DIIS", I+"util/diis.hpp"), ("BFGS", "src/macis/bfgs/bfgs.hpp")],
 ["extrapolated vectors, minimiser and step length"])
prop("F01", "Integral and density files round-trip exactly",
 "Writing integrals to FCIDUMP and reading them back restores orbital count, core energy, one- and two-electron integrals exactly, with all permutational partners filled, whatever the order or which representative of a symmetry class the file lists and however often files are written in one process. Files laid out by other programs (value before or after the indices, spaces or tabs, either line ending, C or Fortran exponents) are read alike; header lines and orbital-energy lines are ignored. Binary density-matrix files round-trip bit-exactly, and a missing or inconsistent file is rejected rather than silently misread.",
 ["inputs", "histories"], "orbital counts, integral values, line orders, symmetry representatives, sequences of writes and reads, damaged files",
 "Tests read one file per format.",
 ["src/macis/fcidump.cxx", I+"util/fcidump.hpp", I+"util/binary_rdms.hpp"], [("FCIDUMP IO", "src/macis/fcidump.cxx")],
 ["file contents, arrays read back"])
prop("F02", "Sparse-matrix files are read and written faithfully",
 "Reading a Matrix Market (general or symmetric, sorted or not, 0- or 1-based), Rutherford-Boeing or binary triplet file yields exactly the matrix it describes in the requested storage and indexing, vectors likewise, and writing then reading returns the same matrix. Distributed writing gives the file a single process would write, and a missing file, a bad header, a bad size line or a bad entry is reported as an error.",
 ["inputs", "configurations"], "matrices, symmetry, comments, entry order, indexing bases, rank counts",
 "Tests read a single bundled file.",
 [S+"io/read_mm.hpp", S+"io/write_mm.hpp", S+"io/read_rb.hpp", S+"io/read_binary_triplets.hpp", S+"io/write_binary_triplets.hpp", S+"io/write_dist_mm.hpp"], [("MM/RB/binary IO", S+"io/read_mm.hpp")],
 ["matrices read back"])
prop("S01", "All sparse formats and conversions represent the same matrix",
 "Converting between coordinate, compressed-row, compressed-column and dense storage, changing indexing base, sorting, expanding a stored triangle and extracting data never changes the represented matrix, for any shape, index base and sparsity pattern including empty rows and columns and non-square matrices. Two compressed-row matrices compare equal exactly when shape, base, structure and values agree.",
 ["inputs"], "shapes, sparsity patterns (empty rows/cols, dense, unsorted), index bases, value types",
 "Tests convert one bundled square matrix with no empty rows.",
 [S+"matrix_types/coo_matrix.hpp", S+"matrix_types/csr_matrix.hpp", S+"matrix_types/csc_matrix.hpp", S+"matrix_types/conversions.hpp", S+"matrix_types/dense_conversions.hpp", S+"matrix_types/coo_conversions.hpp", S+"matrix_types/coo_matrix_ops.hpp"], [("conversions", S+"matrix_types/conversions.hpp")],
 ["matrix storage arrays, element access"])
prop("S02", "Sparse matrix-vector and matrix-block products equal the dense product",
 "For every storage format, shape, scaling pair, block width and leading dimension the sparse product computes alpha*A*X + beta*Y exactly as dense arithmetic would (up to rounding), does not touch memory outside the addressed block, does not modify A or X, and does not depend on thread count.",
 ["inputs", "configurations"], "matrices, formats, index bases, K, LDs, alpha/beta (incl. 0 and 1), threads",
 "Tests multiply one bundled matrix by one block.",
 [S+"spblas/spmbv.hpp"], [("spmbv kernels", S+"spblas/spmbv.hpp")],
 ["output block, guard regions"])
prop("S03", "Submatrix, diagonal, trace, triangle and graph extraction are exact",
 "Extracted row/column sub-blocks, diagonals, traces, triangles and adjacency structures contain exactly the entries the definition selects, with shapes and index base as requested, for all ranges and sparsity patterns.",
 ["inputs"], "ranges (empty, full, edge), shapes, index bases, patterns",
 "Tests take a few ranges of one matrix.",
 [S+"util/submatrix.hpp", S+"util/graph.hpp", S+"matrix_types/type_traits.hpp"], [("submatrix utilities", S+"util/submatrix.hpp")],
 ["returned matrices/arrays"])
prop("S04", "Permutations move each entry exactly where the permutation says",
 "Permuting rows, columns, both, or vectors (forward and backward) of any sparse matrix with any permutation gives exactly the permuted matrix (columns sorted, or in the stored order when only rows move), inverse permutations undo it, and permutations built from a partition are bijections that group each part contiguously in order.",
 ["inputs", "configurations"], "permutations, patterns, index bases, partitions, threads",
 "Tests check one random permutation of one matrix.",
 [S+"util/permute.hpp", S+"util/graph.hpp"], [("permutation kernels", S+"util/permute.hpp")],
 ["permuted matrices and vectors"])
prop("S05", "Distributed sparse matrices and products equal their serial counterparts",
 "Distributing any square sparse matrix over any number of processes with any contiguous row tiling keeps every entry exactly once, and the distributed product with halo exchange equals the serial product for all scaling factors, also when called repeatedly with one communication plan or after copying the matrix; reductions and traces agree with the serial ones.",
 ["inputs", "configurations", "histories"], "matrices, row tilings (incl. empty tiles), 1..6 ranks, repeated products",
 "One matrix and default tiling on two ranks at most.",
 [S+"matrix_types/dist_sparse_matrix.hpp", S+"spblas/pspmbv.hpp", S+"util/mpi.hpp"], [("dist matrix", S+"matrix_types/dist_sparse_matrix.hpp"), ("halo exchange", S+"spblas/pspmbv.hpp")],
 ["local tiles, product vectors"])
prop("M01", "No memory error or undefined behaviour on any valid input",
 "No public operation of the libraries reads or writes outside its buffers, uses freed or null memory, leaks or double-frees, overflows integers or shifts out of range, for any valid input, including degenerate sizes, padded leading dimensions and sub-spans placed at the edge of their allocation.",
 ["inputs"], "all workloads of the other properties plus exact-size buffers, degenerate shapes and sizes",
 "The stock tests run without instrumentation and with comfortable sizes.",
 [I, "src/macis/", S, "src/lobpcgxx/include/lobpcgxx/"], [("bounds discipline throughout", I)],
 ["sanitizer reports"])
prop("M02", "Multi-threaded kernels are race-free and thread-count independent",
 "Every multi-threaded kernel (sparse products, permutations, dense conversion, parallel Hamiltonian assembly, Green function continued fractions) is free of data races and gives the same result for every number of threads and every scheduling of those threads.",
 ["schedules", "configurations"], "thread counts 1..8, random preemption at every parallel region, random matrices",
 "Unit tests run one schedule with a fixed thread count and no race detector.",
 [S+"spblas/spmbv.hpp", S+"util/permute.hpp", S+"matrix_types/dense_conversions.hpp", "attic/inc/cmz_ed/", "attic/inc/dbwy/gf.h++"], [("OpenMP worksharing", S)],
 ["race reports, results across thread counts"])
prop("M03", "Message-passing helpers transfer exactly the data they are given",
 "Typed reductions, broadcasts, gathers and datatype helpers move whole objects (scalars, vectors, determinants wider than one word) without truncation or reordering for any counts up to the chunking limits, on any number of processes, and scalar reductions equal the serial reduction.",
 ["inputs", "configurations", "schedules"], "types, counts (0, 1, many, non-multiples of chunks), rank counts",
 "No test targets these wrappers.",
 [I+"util/mpi.hpp", S+"util/mpi.hpp"], [("MPI wrappers", I+"util/mpi.hpp")],
 ["received buffers"])
A = "attic/inc/cmz_ed/"
B = "attic/src/cmz_ed/"
prop("X01", "Legacy determinants and Hamiltonian matrices follow second quantisation",
 "In the legacy exact-diagonalisation code, occupations, excitations and their fermionic signs, excitation counts, bit-string combinations, (shifted) Hilbert spaces and lists of singles and doubles are exact for every determinant of up to 32 orbitals; Hamiltonian matrix elements equal the second-quantised definition, the lists of coupled pairs miss no non-zero element, and the sparse matrices built from them (also with given pairs) hold exactly the non-negligible elements, for any thread count.",
 ["inputs", "configurations"], "determinants up to 32 orbitals, electron counts from none to full, integrals with the usual symmetry (also with vanishing one-body part), determinant lists",
 "The one legacy unit test (test_Slater) prints a few excitations of one determinant of eight orbitals; sign masks, orbitals beyond the first word half and pair screening are unsampled.",
 [A+"slaterdet.h++", B+"slaterdet.c++", B+"combins.c++", A+"hamil.h++", B+"hamil.c++", A+"integrals.h++"], [("excitations and signs", B+"slaterdet.c++"), ("Slater-Condon rules, pair lists, sparse assembly", B+"hamil.c++")],
 ["determinants, signs, pair lists, sparse matrices"])
prop("X02", "Legacy integral tables, FCIDUMP files and density matrices are exact",
 "In the legacy code, integral tables return each integral in either index order and for each spin pair, rotations equal the full tensor contraction, active-space partitions list each orbital once; FCIDUMP files in any listing order and symmetry representative are read exactly, written files are read back, and missing or malformed ones are reported; density matrices of any wavefunction equal their second-quantised definition, reproduce the energy, rotate consistently and are embedded exactly beside inactive orbitals.",
 ["inputs"], "integrals, orbital counts and partitions, file layouts, wavefunctions, orthogonal and general orbital matrices",
 "No compiled test touches integral files or density matrices of the legacy code.",
 [A+"integrals.h++", A+"rdms.h++", B+"rdms.c++"], [("integral table and FCIDUMP reader", A+"integrals.h++"), ("density matrices", B+"rdms.c++"), ("active-space embedding", A+"rdms.h++")],
 ["integral arrays, density matrices, files"])
prop("X03", "Legacy eigensolvers, resolvents and full calculations are exact",
 "In the legacy code, the dense, band and tridiagonal eigensolvers, QR factorisations and the matrix exponential satisfy their definitions; Lanczos coefficients equal the Gram-Schmidt Krylov projection, the reported ground state is a normalised vector of the reported energy and (when the start vector overlaps it and the gap allows) the lowest state; the band-Lanczos resolvent equals the block-Krylov projection of the exact one; a complete run returns the exact energy and matching density matrices; matrix, vector and parameter files are parsed exactly and errors reported.",
 ["inputs"], "symmetric matrices, start vectors, numbers of vectors and steps, frequencies, integrals, electron counts, parameter files",
 "No compiled test runs a legacy solver.",
 [A+"lanczos.h++", B+"eigsolver.c++", B+"bandlan.c++", A+"bandlan.h++", B+"ed.c++", A+"utils.h++", B+"utils.c++"], [("Lanczos", A+"lanczos.h++"), ("dense solvers", B+"eigsolver.c++"), ("band Lanczos resolvent", B+"bandlan.c++"), ("parameter parsing", B+"utils.c++")],
 ["eigenpairs, Lanczos coefficients, resolvent matrices, energies and densities"])
W = "attic/inc/dbwy/"
prop("X04", "Legacy selected configuration interaction is exact",
 "In the legacy selected-CI code, at determinant widths of 64, 128 and 256 bits: bit-string operations, excitation lists (also restricted to active orbitals), signs, Hamiltonian elements and the fast diagonal updates equal second quantisation; both sparse builders return exactly the elements above the threshold for any bra and ket ranges; density matrices of any wavefunction over a list and the natural-orbital rotation are exact; the Davidson solvers return the lowest normalised eigenpair; the search keeps the best-scoring determinants, each once, along with its seeds' scores; grown, refined and complete runs return a state whose energy and density matrices belong to the determinants it lists, and write it readably; a run started from a wavefunction file returns the lowest state over the determinants it lists, in any order.",
 ["inputs", "configurations"], "determinants, orbital and electron counts, integrals, determinant lists and ranges, thresholds, search sizes and settings; one process",
 "No compiled test includes the legacy selected-CI headers (one of them could not be compiled).",
 [W+x for x in ("bitset_operations.hpp", "sd_operations.hpp", "hamiltonian_generator.hpp", "double_loop.hpp", "sd_build.hpp", "csr_hamiltonian.hpp", "davidson.hpp", "asci_util.hpp", "asci_body.hpp", "cmz_compat_csr_matrix.hpp")],
 [("excitations and signs", W+"sd_operations.hpp"), ("matrix elements and densities", W+"hamiltonian_generator.hpp"), ("excitation-driven builder", W+"sd_build.hpp"), ("search", W+"asci_util.hpp"), ("complete runs", W+"asci_body.hpp")],
 ["determinant lists, sparse matrices, densities, eigenpairs, search results, written wavefunctions"])
prop("X05", "Legacy Green's functions equal the resolvent",
 "In the legacy code, the basis built for adding or removing an electron holds every determinant the wavefunction reaches and its excitations up to the requested number of layers, each once and no others; the start vectors are the signed action of the ladder operator and the vanishing ones are reported; the continued fraction equals the matrix element of the resolvent; the whole Green's function matrix, by single-vector or band Lanczos, for any orbitals and spins, equals the resolvent in that basis, vanishing orbitals left out; the files written hold the same numbers.",
 ["inputs"], "wavefunctions, orbitals and spins, layers, thresholds, active spaces, frequencies off the real axis, integrals; one process",
 "No compiled test computes a Green's function.",
 [W+"gf.h++", "attic/src/dbwy/gf.c++", "attic/inc/cmz_ed/lanczos.h++", "attic/inc/cmz_ed/bandlan.h++", W+"asci_body.hpp"],
 [("basis, start vectors, continued fraction, whole matrix", W+"gf.h++"), ("files", "attic/src/dbwy/gf.c++")],
 ["determinant bases, vectors, Green's function matrices, files"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
