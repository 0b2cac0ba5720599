#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements can be edited readably)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

T = 'include/mfmg/common/amge.templates.hpp'
H = 'include/mfmg/dealii/amge_host.templates.hpp'

prop('C01', 'Agglomeration partitions the locally owned cells',
 'After agglomeration on any mesh, any number of ranks and any supported partitioner (block, zoltan, metis; names in any letter case), every locally owned active cell of a rank carries exactly one agglomerate id, the ids in use are exactly 1..n where n is the returned count (no empty agglomerate, no gap), and ghost and artificial cells carry 0. With the block partitioner no agglomerate spans more than nx, ny, nz cells in the coordinate directions of a Cartesian grid, and a serial Cartesian grid whose cell counts are multiples of the block is tiled exactly; zoltan/metis produce at most the requested number. Agglomerating the same mesh again, also with other parameters, obeys the same rules and identical parameters give the identical assignment.',
 ['inputs', 'configurations', 'histories'],
 'All meshes (2D/3D boxes with any cell counts, balls, L-shapes, disconnected pieces, refined globally), block sizes, agglomerate counts, partitioner names, rank counts, and sequences of agglomeration calls on one mesh.',
 'The tests compare one cube refined three times with block sizes 2x3x4 (and one zoltan/metis setting) against stored lists on 1, 2 and 4 ranks; they never agglomerate twice, never use non-cubic or disconnected meshes, or a rank count that leaves ragged subdomains.',
 [T], [('block marching over +x,+y,+z neighbours', T + ': build_agglomerates_block'),
       ('graph partition and renumbering of parts', T + ': build_agglomerates_partitioner'),
       ('partitioner dispatch', T + ': build_agglomerates')],
 ['user index of every active cell after build_agglomerates', 'return value of build_agglomerates'],
 [('user index', 'agglomerate of a cell, 0 = none/ghost', T)])

prop('C02', 'Boundary layers of agglomerates follow vertex adjacency',
 'For every agglomerate, the reported interior layer is exactly the set of its cells that share a vertex with a cell outside the agglomerate, and the reported halo is exactly the set of cells outside it (owned by anybody, ghosts included) that share a vertex with one of its cells. Both lists are in increasing cell order without duplicates, one pair per agglomerate in agglomerate order.',
 ['inputs', 'configurations'],
 'All meshes, partitioners, block sizes and rank counts accepted by agglomeration.',
 'Stored lists for a single 8x8 square with one block size on 1, 2 and 4 ranks; 3D, unstructured and disconnected meshes and graph partitioners are never looked at.',
 [T], [('vertex connectivity and agglomerate membership sets', T + ': build_boundary_agglomerates')],
 ['pair of vectors returned by build_boundary_agglomerates'])

prop('C03', 'Extracted agglomerate meshes are faithful to the global mesh',
 'The standalone mesh extracted for a set of cells (an agglomerate id or an ascending list of active cells) has exactly one active cell per given cell with identical vertices, all given cells are hit exactly once by the returned cell map, and each of its faces lying on the physical boundary keeps the boundary id of the global face while faces created by cutting carry the default id 0. The degree-of-freedom map of the patch sends every local degree of freedom to the global one with the same support point, injectively, so that assembling any operator patch by patch through the maps reproduces the globally assembled operator.',
 ['inputs', 'configurations'],
 'All meshes, cell subsets that agglomeration or the boundary layers can produce, finite element degrees 1 to 3, boundary colourings, rank counts.',
 'No test inspects an extracted mesh or a dof map beyond the identity map of one full square; boundary ids are only seen through convergence rates.',
 [T], [('patch triangulation and boundary-id copy', T + ': build_agglomerate_triangulation'),
       ('cellwise dof matching', T + ': compute_dof_index_map')],
 ['triangulation and cell map returned by build_agglomerate_triangulation', 'vector returned by compute_dof_index_map'])

prop('C04', 'Restriction matrix is the weighted scatter of local eigenvectors',
 'Given local eigenvectors, local diagonals, dof maps, numbers of vectors per agglomerate and the global diagonal, the assembled restriction matrix has one row per local vector in order, rows of lower ranks first, and its entry at a mapped degree of freedom is (local diagonal / global diagonal) times the vector component, zero elsewhere. The variant that also returns the plain eigenvector matrix E and the difference matrix D assembles the same restriction R, with E holding the unweighted components and R = E + D. Numbers of vectors may differ between agglomerates and ranks, including zero on a rank.',
 ['inputs', 'configurations'],
 'All families of local data (sizes, overlaps, ghost degrees of freedom, ranks without agglomerates, weights and magnitudes), 1 to 4 ranks.',
 'One 2D test with owned dofs only, one vector of length 3 per row, a unit diagonal, checked through one variant; ghosted dofs, several vectors per agglomerate, uneven ranks and the second variant are not compared with anything.',
 [T], [('sparsity and row numbering', T + ': compute_restriction_sparsity_pattern'),
       ('entry formula, both overloads', T + ': compute_restriction_sparse_matrix')],
 ['entries, row and column maps of the produced Trilinos matrices'])

prop('C05', 'The restrictor of a problem is a partition of unity of eigenvectors',
 'For a user operator whose global matrix is the sum of its agglomerate matrices, the restrictor has (number of agglomerates) x (number of eigenvectors) rows, each supported inside one agglomerate of the owning rank and proportional to weight times an eigenvector of that agglomerate, and the weights (agglomerate diagonal over global diagonal) sum to one over the agglomerates at every unconstrained degree of freedom. Hence global vectors that restrict to the span of the chosen local eigenvectors on every agglomerate (constants, for a pure Neumann problem) lie in the range of the prolongator. Both set-up variants and both the matrix-based and matrix-free evaluators give the same restrictor up to the sign/rotation freedom of eigenvectors.',
 ['inputs', 'configurations'],
 'All meshes, coefficients, boundary conditions, agglomerations, eigenvector counts, direct and iterative eigensolvers, rank counts.',
 'One constant-coefficient 2D Neumann case per solver; the weights are only checked for one eigenvector and tolerance 2e-4.',
 [H, T, 'include/mfmg/dealii/amge_host.hpp'],
 [('per-agglomerate worker and ordered copier', H + ': setup_restrictor, local_worker, copy_local_to_global(_eig)'),
  ('weights', T + ': compute_restriction_sparse_matrix')],
 ['matrix returned by setup_restrictor (all variants)', 'build_restrictor of both hierarchy helpers'])

prop('C06', 'Local eigensolves return the lowest eigenpairs of the agglomerate',
 'For every agglomerate operator and every available eigensolver, the returned pairs are eigenpairs of the agglomerate operator as given by the user (unshifted eigenvalues, small residual, unit norm, mutually orthogonal), they are the lowest ones with multiplicity on the unconstrained degrees of freedom, and components at constrained degrees of freedom are zero. The returned diagonal is the diagonal of the user\'s agglomerate operator and the dof map matches the global numbering. Two solvers given the same agglomerate agree on eigenvalues and on spanned eigenspaces up to their tolerance.',
 ['inputs', 'configurations'],
 'All agglomerate operators (coefficients, meshes, element degrees, Dirichlet parts), numbers of eigenpairs up to the unconstrained size, solver types and tolerances; matrix-based and matrix-free.',
 'Two diagonal matrices 1..81 and one solver are checked; the real finite element operators are only checked through gold convergence rates with 1 % tolerance.',
 [H, 'source/dealii/dealii_mesh_evaluator.cc'],
 [('shift, constrained rows, solver dispatch, unshift', H + ': compute_local_eigenvectors'),
  ('zero initial guess on constrained dofs', 'source/dealii/dealii_mesh_evaluator.cc: set_initial_guess')],
 ['tuple returned by compute_local_eigenvectors'])

prop('C07', 'Lanczos returns the requested smallest eigenpairs',
 'For any symmetric operator and any start vector with a component along the wanted eigenvectors, the Lanczos solver returns exactly the requested number of pairs in ascending order of eigenvalue, each vector of unit norm with residual within the convergence tolerance (up to roundoff), and the eigenvalues are the smallest ones: distinct ones for the plain method, with multiplicity for the deflated method with enough cycles. A solve that the iteration limit ends returns the lowest pairs of the whole Krylov space built so far. Zero components of the start vector that the operator preserves stay zero, and repeating a solve gives the identical result.',
 ['inputs', 'configurations', 'histories'],
 'All symmetric operators (spectra with clusters, negative and zero values, multiplicities, wide scales, tiny dimension), start vectors, counts, overshoot percentages, cycles, iteration limits.',
 'One diagonal operator with equally spaced eigenvalues of dimension 1000, one start vector, tolerance 1e-2; ordering is hidden because the test sorts the result.',
 ['include/mfmg/common/lanczos.templates.hpp'],
 [('three-term recurrence and convergence test', 'include/mfmg/common/lanczos.templates.hpp: details_solve_lanczos, details_check_convergence'),
  ('spurious/repeated Ritz value removal', 'include/mfmg/common/lanczos.templates.hpp: details_calc_tridiag_epairs'),
  ('deflation cycles and final sort', 'include/mfmg/common/lanczos.templates.hpp: solve')],
 ['pair returned by Lanczos::solve'])

prop('C08', 'Deflation is an orthogonal projection that accumulates',
 'After any sequence of additions of linearly independent deflation vectors, deflating a vector removes exactly its component in the span of everything added so far: the result is orthogonal to every added vector, the removed part lies in their span, vectors orthogonal to the span are untouched, and deflating again changes nothing. Applying the deflated operator equals applying the base operator and then deflating, whatever the order, scaling or grouping of the added vectors.',
 ['inputs', 'histories'],
 'All dimensions, operators, and histories of additions (batches of any size, any norms, nearly parallel but independent vectors) interleaved with applications.',
 'Never tested directly; only the eigenvalues of a two-cycle deflated Lanczos run on a diagonal matrix are.',
 ['include/mfmg/common/lanczos_deflatedop.templates.hpp'],
 [('pivoted modified Gram-Schmidt', 'include/mfmg/common/lanczos_deflatedop.templates.hpp: add_deflation_vecs'),
  ('projection', 'include/mfmg/common/lanczos_deflatedop.templates.hpp: deflate, vmult')],
 ['DeflatedOperator::vmult, deflate'])

prop('C09', 'The LOBPCG solver returns the requested lowest eigenpairs',
 'For any symmetric positive operator and any initial block of one or more vectors with components along the wanted eigenvectors, a converged LOBPCG solve returns the requested number of pairs with eigenvalues ascending and equal to the smallest eigenvalues with multiplicity, residuals within the absolute tolerance, and orthonormal vectors. The supplied initial vectors are not modified, zero components preserved by the operator stay zero when all start vectors have them, and a repeated solve gives the identical result.',
 ['inputs', 'configurations', 'histories'],
 'All symmetric positive (semi)definite operators, initial blocks (fewer, equal vectors than requested), counts, tolerances, and the two orthogonalisation modes.',
 'One diagonal operator of dimension 1000 with equally spaced eigenvalues and tolerance 1e-2, with identical copies as block start.',
 ['include/mfmg/dealii/anasazi.templates.hpp', 'include/mfmg/dealii/anasazi_traits.hpp'],
 [('problem set-up and solution extraction', 'include/mfmg/dealii/anasazi.templates.hpp: solve')],
 ['pair returned by AnasaziSolver::solve'])

prop('C10', 'Block-vector operations match dense matrix algebra with view aliasing',
 'Under any sequence of the block-vector operations offered to the block eigensolver (creation, copies by index list or range, views, scaled sums, products with small dense matrices, inner products, norms, scaling, block assignment, initialisation), the stored values equal those of a dense column-matrix model in which copies are independent and views alias the columns they were taken from. Dot products, norms and Gram matrices equal the model\'s up to roundoff.',
 ['inputs', 'histories'],
 'All operation histories over several block vectors and live views, sizes, index lists with repetition-free order, and scalars including 0 and 1.',
 'The traits are only used inside LOBPCG runs; an error in an operation LOBPCG uses rarely, or with unusual index order, stays invisible.',
 ['include/mfmg/dealii/anasazi_traits.hpp', 'include/mfmg/dealii/multivector.hpp'],
 [('MultiVecTraits specialisation', 'include/mfmg/dealii/anasazi_traits.hpp'),
  ('shared column ownership', 'include/mfmg/dealii/multivector.hpp')],
 ['all static operations of MultiVecTraits<double, MultiVector>'])

prop('C11', 'Assembled-matrix operators implement linear algebra exactly',
 'For any (rectangular) sparse matrix, distributed or serial, the operator wrapper applies the matrix or its transpose, transposes, multiplies with another operator and multiplies with the transpose of another operator with the same result as dense algebra on the global matrices, with row and column distributions that make results applicable to the vectors built by the operands. Domain and range vectors have the sizes and ownership of columns and rows, operands are not modified, and reported complexities are the row count and the number of stored entries.',
 ['inputs', 'configurations', 'histories'],
 'All sparse matrices (empty rows/columns, rectangular, ranks without rows, values of any scale), operation chains, 1 to 4 ranks.',
 'No CPU test exercises these operators directly; they are only exercised inside hierarchies with gold rates.',
 ['source/dealii/dealii_trilinos_matrix_operator.cc', 'source/dealii/dealii_matrix_operator.cc', 'include/mfmg/dealii/dealii_matrix_operator.hpp'],
 [('apply/transpose/multiply/multiply_transpose', 'source/dealii/dealii_trilinos_matrix_operator.cc'),
  ('serial counterpart', 'source/dealii/dealii_matrix_operator.cc')],
 ['Operator interface of both wrappers'])

prop('C12', 'Matrix-free operator products equal those of the assembled matrix',
 'The matrix-free operator applied to a vector equals the user\'s global evaluation, its range and domain vectors match the locally owned degrees of freedom, and its product with the transpose of a sparse operator equals the dense product A B^T column by column for every scale of A and B. Extracting a row of a distributed matrix yields that row, identically distributed on every rank, whichever rank owns it and wherever its columns live.',
 ['inputs', 'configurations'],
 'All operators A (given by a user evaluation), sparse B with arbitrary row/column ownership and magnitudes, 1 to 4 ranks, dimension 2 and 3.',
 'Only exercised inside two hierarchies whose convergence rate is compared with 1 % tolerance.',
 ['source/dealii/dealii_matrix_free_operator.cc', 'source/dealii/dealii_utils.cc', 'include/mfmg/dealii/dealii_utils.hpp', 'source/dealii/dealii_matrix_free_mesh_evaluator.cc'],
 [('column-by-column product', 'include/mfmg/dealii/dealii_utils.hpp: matrix_transpose_matrix_multiply'),
  ('row extraction', 'source/dealii/dealii_utils.cc: extract_row')],
 ['DealIIMatrixFreeOperator interface', 'extract_row'])

prop('C13', 'The fast product of operator and prolongator is exact',
 'With the fast path enabled and local eigenpairs computed to full accuracy, the product operator it provides equals the global matrix times the transposed restrictor, entry by entry up to roundoff and the eigenpair residual, for every mesh, agglomeration, coefficient and rank count, and for the matrix-based and the matrix-free evaluator. The resulting coarse operator and multigrid cycle equal those of the regular path.',
 ['inputs', 'configurations'],
 'All meshes (also disconnected, unstructured, single agglomerate), partitioners, block sizes, numbers of eigenvectors, coefficients, boundary conditions, rank counts, ranks without cells.',
 'The fast path is compared with the regular one for one mesh family through gold convergence rates.',
 ['source/dealii/dealii_hierarchy_helpers.cc', 'source/dealii/dealii_matrix_free_hierarchy_helpers.cc', T],
 [('eigenvalue-scaled eigenvector matrix plus boundary-layer corrections', 'source/dealii/dealii_hierarchy_helpers.cc: build_restrictor'),
  ('matrix-free copy of the same algorithm', 'source/dealii/dealii_matrix_free_hierarchy_helpers.cc: build_restrictor')],
 ['fast_multiply_transpose() after build_restrictor', 'Hierarchy::apply with fast_ap on/off'])

prop('C14', 'One cycle equals the textbook two-level cycle with Galerkin operator',
 'Applying the hierarchy performs the configured number of pre-smoothing steps, adds the coarse correction P (R A P)^-1 R r with P the transpose of the restrictor, and performs the same number of post-smoothing steps, starting from zero as a preconditioner and from the given vector otherwise; with one level it is the coarse solver alone. The Galerkin operator R A P is symmetric when A is, and positive definite when A is and the restrictor has full rank. Both public application entry points give the same result and the right-hand side is never modified.',
 ['inputs', 'configurations', 'histories'],
 'All problems, smoothers, smoothing step counts, preconditioner/solver mode, level counts 1 and 2, matrix-based and matrix-free, rank counts, right-hand sides and start vectors.',
 'The tests look only at the asymptotic convergence rate of 20 cycles with zero right-hand side and one smoothing step; nothing is compared with an independent cycle.',
 ['include/mfmg/common/hierarchy.hpp', 'include/mfmg/common/level.hpp', 'source/dealii/dealii_hierarchy_helpers.cc'],
 [('recursive cycle', 'include/mfmg/common/hierarchy.hpp: apply'),
  ('set-up of levels and Galerkin product', 'include/mfmg/common/hierarchy.hpp: constructor')],
 ['Hierarchy::apply, Hierarchy::vmult'])

prop('C15', 'As a preconditioner the hierarchy is a fixed symmetric positive map',
 'In preconditioner mode the result of an application depends only on the right-hand side: it is linear in it, independent of the previous content of the output vector and of earlier applications. With a symmetric smoother and a symmetric positive definite operator the map is symmetric, and it is positive definite, so conjugate gradients preconditioned with it converges to the true solution.',
 ['inputs', 'configurations', 'histories'],
 'All symmetric positive definite problems, symmetric smoothers (symmetric Gauss-Seidel, Jacobi within its stability range, Chebyshev), histories of applications with arbitrary vectors, rank counts.',
 'Linearity, symmetry, statelessness and positivity quantify over all vectors and histories; tests run a fixed sequence with zero right-hand side.',
 ['include/mfmg/common/hierarchy.hpp', 'source/dealii/dealii_smoother.cc', 'source/dealii/dealii_matrix_free_smoother.cc', 'source/dealii/dealii_solver.cc'],
 [('zeroing of the start vector', 'include/mfmg/common/hierarchy.hpp: apply'),
  ('symmetric pre/post smoothing', 'include/mfmg/common/hierarchy.hpp: apply')],
 ['Hierarchy::vmult'])

prop('C16', 'As a solver the cycle keeps the solution fixed and contracts the error',
 'In stand-alone mode the exact solution is a fixed point of a cycle for every right-hand side, the new error depends only on the old error (not on the right-hand side), and for symmetric positive definite operators with convergent smoothers every cycle strictly reduces the energy norm of the error, so repeated cycles converge to the solution. Enlarging the set of local eigenvectors (coarse space) with symmetric smoothing does not make the worst-case two-level contraction worse beyond roundoff.',
 ['inputs', 'configurations', 'histories'],
 'All symmetric positive definite problems, smoothers, numbers of smoothing steps, agglomerations, eigenvector counts, right-hand sides, start vectors, rank counts.',
 'Gold convergence rates of three problems with zero right-hand side.',
 ['include/mfmg/common/hierarchy.hpp', 'source/dealii/dealii_smoother.cc', 'source/dealii/dealii_hierarchy_helpers.cc'],
 [('correction scheme on the residual', 'include/mfmg/common/hierarchy.hpp: apply')],
 ['Hierarchy::apply in solver mode'])

prop('C17', 'Smoothers are the stationary iterations they are named after',
 'Every smoother performs x <- x + B^-1 (b - A x) with B fixed by the operator and the name: on one rank B is the lower triangle for Gauss-Seidel, the symmetric Gauss-Seidel matrix, the diagonal for Jacobi, the zero-fill incomplete factors for ILU, and the Chebyshev polynomial of the configured degree for the matrix-free smoother. It is affine in (x, b), leaves the exact solution fixed, does not modify b, and names are accepted in any letter case while unknown names are rejected with an exception.',
 ['inputs', 'configurations', 'histories'],
 'All matrices with non-zero diagonal, vectors, smoother names and Chebyshev parameters, matrix-based and matrix-free, rank counts, repeated application.',
 'No test looks at a smoother by itself on the CPU; a wrong damping or a half sweep only shifts a convergence rate.',
 ['source/dealii/dealii_smoother.cc', 'source/dealii/dealii_matrix_free_smoother.cc', 'include/mfmg/common/smoother.hpp'],
 [('residual form of the update', 'source/dealii/dealii_smoother.cc: apply'),
  ('name dispatch', 'source/dealii/dealii_smoother.cc: constructor')],
 ['Smoother::apply'])

prop('C18', 'The coarse solver solves and honours its configuration',
 'The direct coarse solver returns the solution of A x = b up to conditioning for every non-singular sparse matrix and right-hand side, regardless of the previous content of x and of earlier solves. The ML coarse solver is a fixed linear map that, configured with a single level and a direct coarse solver, equals the direct solve, and user parameters below "coarse.params" reach ML; solver names are accepted in any letter case and unknown names are rejected with an exception.',
 ['inputs', 'configurations', 'histories'],
 'All non-singular matrices (incl. sizes 1 and 2, non-symmetric for direct), right-hand sides, repeated solves, ML parameter trees, rank counts.',
 'One hierarchy compares direct with single-level ML through its convergence rate.',
 ['source/dealii/dealii_solver.cc', 'source/common/utils.cc'],
 [('solver choice and parameter translation', 'source/dealii/dealii_solver.cc: constructor'), ('solve', 'source/dealii/dealii_solver.cc: apply')],
 ['Solver::apply'])

prop('C19', 'Parameter-tree translation preserves structure, types and values',
 'Translating a property tree into a Trilinos parameter list keeps exactly the same nesting and names, and every leaf becomes a parameter whose type is the narrowest of integer, floating point, boolean and string that its text parses as, with the value of that text; nothing is added or lost, whatever characters names and string values contain. Translating an empty tree gives an empty list, and the source tree is not modified.',
 ['inputs'],
 'All property trees: depths, widths, names and values with blanks, punctuation, quotes, ampersands and angle brackets, numbers of all notations and magnitudes.',
 'One example tree with four looked-up entries.',
 ['source/common/utils.cc', 'include/mfmg/common/utils.hpp'],
 [('serialisation to the Teuchos XML format', 'source/common/utils.cc: ptree2plist, ptree2plist_internal')],
 ['parameter list filled by ptree2plist'])

prop('C20', 'Sort permutations order pairs and in-place application permutes',
 'For any two equally long sequences, the computed permutation is a permutation that orders the pairs lexicographically (first sequence, then second). Applying a permutation in place yields the vector whose i-th entry is the old entry at permutation[i], for every permutation, value type and length including zero, so applying it to both sequences sorts them.',
 ['inputs'],
 'All pairs of sequences with ties, extreme values, lengths from 0; all permutations (any cycle structure) and element types.',
 'One pair of ten integers whose permutation has a single cycle structure.',
 ['include/mfmg/common/utils.hpp'],
 [('index sort', 'include/mfmg/common/utils.hpp: sort_permutation'), ('cycle walk', 'include/mfmg/common/utils.hpp: apply_permutation_in_place')],
 ['return value of sort_permutation', 'vector after apply_permutation_in_place'])

prop('C21', 'Evaluator services: diagonal, initial guess, sizes',
 'For every user operator, the diagonal service returns on each rank the diagonal of the global matrix at all locally relevant degrees of freedom, owned and ghost, in a vector laid out over them. The initial guess for local eigensolves is zero exactly at constrained degrees of freedom, strictly inside (0,1) elsewhere and the same for equal input; the reported dimension, evaluator kind, size and range-vector layout match the mesh and degree-of-freedom handler.',
 ['inputs', 'configurations'],
 'All meshes, operators, constraint sets, rank counts, matrix-based and matrix-free evaluators.',
 'Only used inside other tests on one mesh; ghost entries of the diagonal and constrained positions are never compared.',
 ['source/dealii/dealii_mesh_evaluator.cc', 'source/dealii/dealii_matrix_free_mesh_evaluator.cc'],
 [('diagonal extraction and ghosting', 'source/dealii/dealii_mesh_evaluator.cc: get_diagonal'),
  ('random guess with zero constrained entries', 'source/dealii/dealii_mesh_evaluator.cc: set_initial_guess')],
 ['DealIIMeshEvaluator / DealIIMatrixFreeMeshEvaluator public interface'])

prop('C22', 'Written output files round-trip',
 'The visualisation output writes one readable piece per rank whose cell data give, for every locally owned cell, its rank and agglomerate id, and a master record on rank 0 that names exactly the pieces of all ranks. Matrices and vectors written in MatrixMarket format read back as the same global matrix or vector (sizes, positions, values to the printed precision), for distributed and serial matrices and any rank count.',
 ['inputs', 'configurations'],
 'All meshes, agglomerations, matrices (rectangular, empty rows, values of any magnitude and sign), vectors, rank counts, file names.',
 'The output functions are never called by a test that reads the files back.',
 [T, 'source/dealii/dealii_utils.cc'],
 [('vtu pieces and pvtu record', T + ': output'), ('MatrixMarket writers', 'source/dealii/dealii_utils.cc: matrix_market_output_file')],
 ['files written by AMGe::output and matrix_market_output_file'])

prop('C23', 'Bad configurations are rejected, good ones honoured in any letter case',
 'Building agglomerates, smoothers, coarse solvers or a whole hierarchy with an unknown partitioner, smoother or coarse-solver name, with an eigensolver that is unavailable in matrix-free mode, with a number of levels, eigenvectors, agglomerates or cells of a block that is not positive, with a negative number of smoothing steps, with more levels than the operator kind or more eigenvectors than the agglomerates can provide, or without a required parameter ends in a C++ exception on every rank (on the rank of the agglomerate for the number of its eigenvectors), and never in a crash, a hang or a usable object. Operations that an operator kind does not offer throw as well. Every documented name of a partitioner, smoother or coarse solver in any mix of upper and lower case builds the same object as its canonical spelling, and parameters left out behave as their documented defaults.',
 ['inputs', 'configurations'],
 'All configuration trees: names outside and inside the documented sets in random letter case, missing entries, rank counts.',
 'No test feeds an invalid name or omits a required parameter; no test varies letter case.',
 [T, H, 'source/dealii/dealii_smoother.cc', 'source/dealii/dealii_matrix_free_smoother.cc', 'source/dealii/dealii_solver.cc', 'source/dealii/dealii_matrix_free_operator.cc', 'include/mfmg/common/exceptions.hpp', 'include/mfmg/common/hierarchy.hpp'],
 [('ASSERT_THROW on unknown names', 'include/mfmg/common/exceptions.hpp'), ('name lower-casing', T)],
 ['exceptions leaving constructors and set-up functions', 'results of case-varied configurations'])

prop('C24', 'Set-up is repeatable and independent of irrelevant representation',
 'Building the hierarchy or restrictor again from the same inputs, on the same or on a new mesh object, also after other hierarchies were built or used, gives the same results. Renumbering degrees of freedom, or adding a constant to no-longer-read state such as the previous content of output objects, permutes the results accordingly and changes nothing else; multiplying the operator by a positive constant leaves the restrictor unchanged and scales the cycle by its inverse.',
 ['inputs', 'histories', 'configurations'],
 'All problems, renumberings, positive scale factors, and sequences of set-ups and applications on shared meshes.',
 'Renumbering is only seen through gold rates; no test builds two hierarchies on one mesh or scales an operator.',
 [T, H, 'include/mfmg/common/hierarchy.hpp', 'include/mfmg/dealii/dealii_utils.hpp'],
 [('fixed seeds for zoltan and start vectors', T + ': build_agglomerates'), ('weights are diagonal ratios', T + ': compute_restriction_sparse_matrix')],
 ['Hierarchy::vmult, setup_restrictor across repeated/transformed set-ups'])

prop('C25', 'Matrix-free and matrix-based paths agree on the same operator',
 'When the matrix-free evaluator computes the same operator as the matrix-based one, both paths produce the same agglomerates, the same restrictor up to eigenvector sign/rotation, the same coarse operator, and, given the same smoother action, the same cycle. The product and coarse operators built by either path act identically on every vector.',
 ['inputs', 'configurations'],
 'All problems without constrained degrees of freedom or with homogeneous Dirichlet conditions treated the same way, eigensolvers available in both modes, rank counts.',
 'The two modes are tested separately against different stored rates.',
 ['source/dealii/dealii_matrix_free_hierarchy_helpers.cc', 'source/dealii/dealii_hierarchy_helpers.cc', H, 'source/dealii/dealii_matrix_free_operator.cc'],
 [('duplicated helper code paths', 'source/dealii/dealii_matrix_free_hierarchy_helpers.cc'), ('agglomerate operator wrapper', H + ': MatrixFreeAgglomerateOperator')],
 ['build_restrictor, multiply_transpose, multiply of both helper families'])

prop('C26', 'Set-up results do not depend on the number of threads',
 'With more than one thread, the restrictor, the fast product and the cycle of the hierarchy are the same (up to roundoff) as those built with one thread, with every eigensolver, number of threads and schedule of the per-agglomerate tasks.',
 ['schedules', 'inputs'],
 'All thread counts and schedules, all problems.',
 'The test suite runs with one thread only in this environment; schedules are never controlled.',
 [H, 'source/dealii/dealii_hierarchy_helpers.cc', 'source/dealii/dealii_matrix_free_hierarchy_helpers.cc'],
 [('WorkStream worker/copier separation', H + ': setup_restrictor')],
 ['restrictor built with several threads'])

prop('C27', 'Device (CUDA) components compute the same as the host components',
 'Sparse matrices, smoothers, direct solvers, eigensolvers and hierarchies on the device give the same results as their host counterparts for every input.',
 ['inputs', 'configurations'],
 'All inputs of the CUDA components.',
 'Needs a GPU and the CUDA toolkit; nothing of it is even compiled in this environment.',
 ['source/cuda/sparse_matrix_device.cu', 'source/cuda/cuda_solver.cu', 'include/mfmg/cuda/amge_device.templates.cuh'],
 [('device kernels and cuSPARSE/cuSOLVER calls', 'source/cuda')],
 ['CUDA classes'])

prop('C28', 'A failing user callback is reported to the caller and leaves nothing behind',
 'When a callback of the user (operator on an agglomerate, on a patch of the fast product, or on the mesh) throws, during set-up or while the hierarchy is applied, the same exception reaches the caller of the library, with any number of threads; the program does not end, hierarchies built earlier still give the same results, and a new set-up from the same inputs gives the results it would have given without the failure.',
 ['faults', 'schedules', 'histories'],
 'All problems, parameters and thread counts; every callback of every set-up and application may be the one that fails; repeated failures.',
 'No unit test lets a callback fail.',
 [H, 'include/mfmg/dealii/dealii_utils.hpp', 'source/dealii/dealii_hierarchy_helpers.cc', 'source/dealii/dealii_matrix_free_hierarchy_helpers.cc', 'include/mfmg/common/hierarchy.hpp'],
 [('exceptions crossing the task scheduler', 'include/mfmg/dealii/dealii_utils.hpp: run_work_stream'), ('exceptions crossing the eigensolvers', 'include/mfmg/dealii/amge_host.templates.hpp: compute_local_eigenvectors')],
 ['Hierarchy constructor, vmult, apply', 'build_restrictor', 'fast_multiply_transpose'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
