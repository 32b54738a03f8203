#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the entries stay legible)."""
import json, os
P = []
H = "include/mfmg/common/hierarchy.hpp"
AT = "include/mfmg/common/amge.templates.hpp"
AH = "include/mfmg/dealii/amge_host.templates.hpp"
HH = "source/dealii/dealii_hierarchy_helpers.cc"
MH = "source/dealii/dealii_matrix_free_hierarchy_helpers.cc"
LZ = "include/mfmg/common/lanczos.templates.hpp"
DF = "include/mfmg/common/lanczos_deflatedop.templates.hpp"
TR = "include/mfmg/dealii/anasazi_traits.hpp"
AN = "include/mfmg/dealii/anasazi.templates.hpp"
TM = "source/dealii/dealii_trilinos_matrix_operator.cc"
MF = "source/dealii/dealii_matrix_free_operator.cc"
SM = "source/dealii/dealii_smoother.cc"
MS = "source/dealii/dealii_matrix_free_smoother.cc"
SO = "source/dealii/dealii_solver.cc"
DU = "source/dealii/dealii_utils.cc"
DH = "include/mfmg/dealii/dealii_utils.hpp"
ME = "source/dealii/dealii_mesh_evaluator.cc"
UT = "source/common/utils.cc"


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})


p("C01", "Applying the hierarchy is exactly one symmetric V-cycle",
  "On a level that has a coarser one, applying the hierarchy to (b, x) performs the configured number of smoothing steps, adds the prolongated (transpose of the restriction) result of the same cycle applied on the coarser level to the restricted residual b - A x of the smoothed iterate, and performs the same number of smoothing steps again, all with that level's own operator, smoother and the restriction to the next level. On the coarsest level it applies the coarse solver to (b, x) and nothing else; the right-hand side and the hierarchy are left unchanged.",
  ["inputs", "configurations"], "every right-hand side and iterate, every number of levels and of smoothing steps, every backend",
  "Tests compare convergence rates of two-level hierarchies with one smoothing step within a tolerance; a sign, order or level mix-up that only matters for nu > 1, nonzero right-hand sides or standalone mode converges as before on them.",
  [H, "include/mfmg/common/level.hpp"], [("Hierarchy::apply", H), ("Hierarchy::vmult", H)],
  [("_levels", "per-level operator, restriction, smoother, solver", H)], ["Hierarchy::apply", "Hierarchy::vmult"])

p("C02", "As a preconditioner the cycle ignores the previous content of x",
  "When the hierarchy is used as a preconditioner, and always on levels below the finest, the result of applying it depends only on the right-hand side: the iterate is overwritten with zero before anything reads it. When it is used as a standalone solver the finest level starts from the caller's iterate, and a one-level algebraic solver is told the same through its starting-solution option.",
  ["inputs", "configurations"], "every initial content of x (garbage included), every level, both modes",
  "Tests hand in zero or well-behaved vectors, so that a read of stale content is invisible.",
  [H], [("zeroing of x in Hierarchy::apply", H), ("coarse.params.zero starting solution", H)],
  [("_is_preconditioner", "mode of use", H)], ["Hierarchy::apply"])

p("C03", "Every level is completely equipped and coarse operators are Galerkin",
  "After a hierarchy is constructed, the finest level holds the evaluator's global operator, every level but the coarsest holds a smoother for its own operator, every level but the finest holds a restriction and the operator R (A R^T) built from that very restriction and the operator of the next finer level, and the coarsest level holds a solver for its own operator. This holds for both ways of forming A R^T.",
  ["configurations"], "every number of levels, both values of the fast-product option, every backend",
  "Tests run one or two levels; whether pieces are attached to the right level for other counts, or the product is formed from the attached restriction, is only seen indirectly in convergence.",
  [H, "include/mfmg/common/level.hpp"], [("Hierarchy constructor", H), ("Level accessors", "include/mfmg/common/level.hpp")],
  [("_levels", "chain of levels", H)], ["Hierarchy::Hierarchy"])

p("C04", "Smoothers are stationary iterations x + M^-1 (b - A x)",
  "Applying a smoother to (b, x) replaces x by x + P(b - A x), where A is the operator the smoother was built for and P is the preconditioner selected by name and initialised from that same operator, and leaves b unchanged. Hence the exact solution is a fixed point of every smoother, and an optional parameter of the smoother reaches the preconditioner setting of the same name and takes effect.",
  ["inputs", "configurations"], "every b and x, every smoother type and parameter",
  "Tests only see smoothers inside a convergent two-grid cycle with zero right-hand side.",
  [SM, MS], [("DealIISmoother::apply", SM), ("DealIIMatrixFreeSmoother::apply", MS), ("smoother constructors", SM)],
  [], ["Smoother::apply"])

p("C05", "Operator backends implement the operator algebra they declare",
  "For matrix operators, applying in normal and transposed mode multiplies by A and A^T, multiply gives A B, multiply_transpose gives A B^T, transpose gives A^T, and domain and range vectors are laid out like the columns and rows of the matrix. For the matrix-free operator every supported operation agrees with the same algebra, and every unsupported operation throws instead of returning a result.",
  ["inputs", "configurations"], "every operand, mode and backend, square or rectangular",
  "Tests multiply symmetric or square matrices, on few processes, so swapped operands, modes or layouts often give the same numbers.",
  [TM, MF, "source/dealii/dealii_matrix_operator.cc"], [("apply/multiply/multiply_transpose/transpose", TM), ("matrix-free counterparts", MF)],
  [], ["Operator interface"])

p("C06", "The column-by-column product delivers every owned entry of A B^T",
  "Forming A B^T with an operator that can only be applied sets, on every process, each locally owned entry (i, j) to component i of A applied to row j of B, for all rows j of B, and leaves out only entries of negligible magnitude whatever their sign. The row extracted for a given global index has exactly the stored entries of that row on the owning process, and zeros elsewhere.",
  ["inputs", "configurations"], "every matrix, operator, number of processes and row distribution",
  "Tests use a few small matrices with positive entries on a few process counts.",
  [DH, DU], [("matrix_transpose_matrix_multiply", DH), ("extract_row", DU)], [], ["matrix_transpose_matrix_multiply", "extract_row"])

p("C07", "Restriction entries are diagonal-weighted eigenvectors in matching rows",
  "Every entry of the restriction equals eigenvector value times (agglomerate diagonal / global diagonal) of its degree of freedom, with rows numbered by the eigenvector's position among this process's eigenvectors after the rows of lower ranks and columns by the agglomerate's map to global indices; contributions are accumulated. The variant that also returns the unweighted eigenvectors E and the difference D keeps R = E + D entry by entry, and the sparsity used has every such entry.",
  ["inputs", "configurations"], "every set of agglomerates, eigenvectors (also different counts per agglomerate, and none), maps and process counts",
  "Tests check unit data or sums; mismatched indices with uniform counts per agglomerate or one process are invisible.",
  [AT], [("compute_restriction_sparse_matrix (both overloads)", AT), ("compute_restriction_sparsity_pattern", AT)],
  [("restriction_sparse_matrix", "R", AT), ("eigenvector_sparse_matrix", "E", AT), ("delta_eigenvector_matrix", "D", AT)], ["restriction matrix"])

p("C08", "The fast product assembles A R^T from eigenpairs and boundary corrections",
  "The fast way of forming A R^T returns the transpose of Lambda E + C, with E the unweighted eigenvectors scaled by their own eigenvalues, and C accumulating for each agglomerate the local operator of its boundary patch applied to D, and the local operator of its halo patch applied to R = D + E, restricted to the patch's degrees of freedom and added in the rows of that agglomerate. Assembled and matrix-free backends do the same.",
  ["inputs", "configurations"], "every agglomeration, number of eigenvectors and process count",
  "Tests compare the convergence rate of a few configurations with large tolerances.",
  [HH, MH], [("fast_ap branch of build_restrictor", HH), ("fast_ap branch of build_restrictor", MH)], [], ["fast_multiply_transpose"])

p("C09", "Agglomerate contributions are gathered in lockstep",
  "For each agglomerate the eigenvectors, eigenvalues, diagonal, index map and eigenvector count computed by its worker are all appended exactly once and in the same order, so that the k-th entries of the gathered lists describe the same agglomerate and eigenpair. Each agglomerate number from 1 to the number of agglomerates is processed exactly once, on its own cells.",
  ["inputs", "configurations", "schedules"], "every number of agglomerates and eigenvectors, every thread schedule",
  "Tests see it only through one-agglomerate or symmetric meshes where swapped data are equal.",
  [AH], [("setup_restrictor, local_worker, copy_local_to_global, copy_local_to_global_eig", AH)], [("CopyData", "per-agglomerate results", "include/mfmg/dealii/amge_host.hpp")], ["setup_restrictor"])

p("C10", "All processes execute the same collective operations",
  "Whether, how often and in which order a process takes part in a collective operation (communication, construction, compression or output of a distributed object) never depends on data that differ between processes, such as the rank, owned cells or local sizes. In particular none is executed inside the per-agglomerate work.",
  ["configurations", "inputs"], "every process count and mesh partition, including processes owning nothing",
  "A skipped collective deadlocks only for particular partitions; tests use a few process counts.",
  [AT, AH, HH, MH, DU, DH, ME], [("collective call sites in the library", AT)], [], ["collective call sites"])

p("C11", "Agglomerates are processed in parallel without shared writes",
  "Work done concurrently for different agglomerates writes only to data private to that work item or its thread's scratch and copy objects: it changes no captured or member state, no static or global variable, and works on its own copy of a matrix-free evaluator. Results are merged only in the serial copying step.",
  ["schedules"], "every thread count and schedule",
  "Tests mostly run one thread; a race needs a particular interleaving.",
  [AH, HH, MH], [("WorkStream workers", AH), ("MatrixFreeAgglomerateOperator clones the evaluator", AH)], [], ["WorkStream::run"])

p("C12", "No agglomerate inherits results of a previously processed one",
  "What the copying step adds for a work item was computed for that very item, whichever items the same thread processed before, and also when the item turns out to be empty. All fields of the copy object that are read are set, on every path, for every item.",
  ["schedules", "histories"], "every sequence of items on a thread, with empty items anywhere",
  "Needs an empty halo patch after a non-empty one on the same thread; meshes used by the tests have none.",
  [AH, HH, MH], [("worker/copier pairs", HH)], [("CopyData", "per-thread reused result object", HH)], ["WorkStream::run"])

p("C13", "Results are reproducible: randomness is local and fixed-seeded",
  "Every random number generator used by the library is created at its use with a seed that is a compile-time constant or a loop counter, the partitioner's generator is re-seeded before every partitioning, and no result depends on the iteration order of an unordered container, on addresses or on time. Constructing the same hierarchy twice in one process therefore performs the same computation.",
  ["histories", "schedules"], "every sequence of constructions in one process, every schedule",
  "Tests build each object once per process and compare with tolerances.",
  [LZ, TR, ME, AT], [("generators", LZ), ("Zoltan_Srand", AT)], [], ["random generators"])

p("C14", "Unsupported choices are rejected by exception in every build type",
  "Every selection made by name or type at run time - partitioner, smoother, coarse solver, eigensolver, evaluator kind and dimension - either runs the algorithm of that name or throws, in debug and release builds alike; nothing continues with a missing, default or uninitialised choice. Smoother, coarse solver and partitioner names are matched without regard to case.",
  ["configurations", "inputs"], "every configuration value, known or not",
  "Tests try one or two invalid names in one build type.",
  [AT, AH, SM, MS, SO, H], [("dispatch chains", AT), ("ASSERT_THROW", "include/mfmg/common/exceptions.hpp")], [], ["constructors, build_agglomerates, setup_restrictor"])

p("C15", "A run-time downcast is never used without being checked",
  "Where a user-supplied or virtual object is narrowed to the backend type an operation needs, the operation throws when the object is of another type, in every build type, before anything is read through the narrowed pointer. Mixing backends that do not fit therefore ends in an exception and never in undefined behaviour.",
  ["configurations", "inputs"], "every combination of operators, evaluators and helpers",
  "Tests combine matching backends only.",
  [HH, MH, TM, MF, SM, MS, SO], [("dynamic_pointer_cast sites", TM)], [], ["Operator::multiply etc."])

p("C16", "No failure reported by a numerical library is dropped",
  "Every status code returned by LAPACK, Epetra, EpetraExt or Anasazi is compared with success and handed to the library's assertion on every path before the results of that call are used. A failing call therefore never goes unnoticed in a build with assertions.",
  ["fault_sequences", "inputs"], "every call to the external numerical libraries that reports success or failure, on every path",
  "The calls do not fail in the tests.",
  [LZ, AN, TM, DU, HH, MH], [("status checks", TM)], [], ["call sites returning status codes"])

p("C17", "Parameter conversion is faithful, typed and injection-proof",
  "Converting a parameter tree to a solver parameter list preserves every name, nesting and value: every leaf becomes a parameter of the most specific of int, double, bool, string that parses, every inner node a sublist, and an empty tree an empty list. Names and values with markup characters arrive unchanged and can neither break nor extend the list.",
  ["inputs", "configurations"], "every parameter tree, arbitrarily nested, with arbitrary characters",
  "Tests convert one small tree without special characters.",
  [UT], [("ptree2plist", UT)], [], ["ptree2plist"])

p("C18", "Timer sections are properly nested on every path",
  "Every timer section the library enters is left exactly once on every path through the construction and application of a hierarchy that returns normally, in last-in first-out order. Without a timer nothing is done.",
  ["configurations"], "every path, number of levels and mode, with and without a timer",
  "Few configurations pass a timer; an unbalanced section only throws later.",
  [H], [("timer_enter_subsection/timer_leave_subsection", H)], [], ["Hierarchy"])

p("C19", "Distributed objects are completed with the matching operation before use",
  "After entries of a distributed matrix, vector or pattern have been set or added, it is compressed, with the operation matching the kind of writes, before it is applied, multiplied, extracted from, returned or handed on, on every path. Insert and add writes are never mixed without compression in between.",
  ["configurations", "inputs"], "every path and process count",
  "On one process the omission is often invisible.",
  [AT, DU, DH, ME, HH, MH], [("compress calls", AT)], [], ["distributed objects"])

p("C20", "Inputs are left unmodified",
  "Constructing or applying hierarchies, smoothers, solvers and operators does not change the operators, matrices, right-hand sides and configuration trees passed in; constness is not cast away on objects the caller can see. Building two hierarchies from one configuration gives the same as building each from its own copy.",
  ["histories", "inputs"], "every sequence of constructions and applications sharing inputs",
  "Tests load a fresh configuration for each hierarchy and never look at the inputs again.",
  [H, SM, SO, TM, HH, MH], [("const interfaces", TM), ("params->put", H)], [], ["public entry points"])

p("C21", "Constrained degrees of freedom stay zero in eigensolver guesses",
  "Every vector offered to an eigensolver as an initial guess is zero in all constrained degrees of freedom: the generated guess is, perturbing a guess for a later cycle multiplies its entries, and reused eigenvectors are reset to zero where the generated guess is zero. Unconstrained entries of a generated guess are drawn at random.",
  ["inputs", "histories"], "every set of constraints and sequence of agglomerates",
  "Tests have few constrained degrees of freedom and never inspect guesses of later cycles.",
  [ME, LZ, AH], [("set_initial_guess", ME), ("details_set_initial_guess", LZ), ("LOBPCG guess", AH)], [], ["initial guesses"])

p("C22", "Lanczos and LOBPCG return as many ordered eigenpairs as requested",
  "The number of eigenvalues equals the number of eigenvectors returned, each eigenvalue stays with its own eigenvector through filtering of spurious and repeated values, truncation and sorting, several cycles come out in ascending order and keep the smallest of all pairs found, and Ritz vectors combine the Lanczos vectors with the coefficients of the same Ritz value. Results that do not exist are never read: fewer than requested is recognised before anything indexes them.",
  ["inputs", "configurations"], "every operator, number of requested pairs, cycles and tolerances",
  "Tests use a handful of operators whose eigenvalues behave.",
  [LZ, AN], [("Lanczos::solve", LZ), ("tridiagonal eigenpairs", LZ), ("AnasaziSolver::solve", AN)], [], ["Lanczos::solve", "AnasaziSolver::solve"])

p("C23", "Lanczos follows the three-term recurrence of the given operator",
  "Each new Lanczos vector is the operator applied to the last normalised one minus the last two weighted with the coefficients stored in the tridiagonal matrix: alpha the inner product with the last vector, beta the norm of the preceding remainder. The iteration ends when the residual bound beta times the last component of each requested Ritz vector is within tolerance, or at the iteration limit.",
  ["inputs"], "every operator and initial guess, every iteration",
  "Tests compare a few eigenvalues with a tolerance.",
  [LZ], [("details_solve_lanczos", LZ), ("details_check_convergence", LZ)], [("main_diagonal/sub_diagonal", "tridiagonal matrix", LZ)], ["Lanczos::solve"])

p("C24", "Deflation projects out all previously found vectors, every time",
  "The deflated operator applies the projection onto the orthogonal complement of all added vectors after every application of the base operator, to the initial guess of every cycle, and with an orthonormal basis: new vectors are made orthogonal to old and to each other and normalised to length one. Vectors of each cycle but the last are added; with none added it is the base operator.",
  ["inputs", "histories"], "every sequence of added vectors and applications",
  "Tests use few cycles and compare eigenvalues with tolerance.",
  [DF, LZ], [("DeflatedOperator", DF)], [("_deflation_vecs", "orthonormal basis", "include/mfmg/common/lanczos_deflatedop.hpp")], ["DeflatedOperator::vmult"])

p("C25", "Every owned cell gets one agglomerate and numbers are contiguous",
  "After building agglomerates, with any partitioner and however often it was done before on the same mesh, every locally owned cell carries a number between 1 and the returned count, every number in that range is used, and no cell of another process is numbered. The count reported later is the count of the last build.",
  ["inputs", "histories", "configurations"], "every mesh partition, agglomerate size and sequence of builds",
  "Tests build once per mesh, on structured meshes and few process counts.",
  [AT], [("build_agglomerates_block", AT), ("build_agglomerates_partitioner", AT)], [("user_index", "agglomerate number of a cell", AT), ("_n_agglomerates", "last count", "include/mfmg/common/amge.hpp")], ["build_agglomerates"])

p("C26", "Agglomerate patches map cells, boundary ids and unknowns consistently",
  "A patch consists of exactly the cells of its agglomerate (or of the given cell list), boundary faces keep the boundary id of the very face they copy, and the unknown with local index k of a patch cell is mapped to the global index of the same position on the corresponding mesh cell. The boundary lists hold, for each agglomerate in order, each of its cells that touches a cell outside and each outside cell so touched, exactly once.",
  ["inputs", "configurations"], "every mesh, agglomeration and process count",
  "Tests look at one or two small meshes.",
  [AT], [("build_agglomerate_triangulation", AT), ("compute_dof_index_map", AT), ("build_boundary_agglomerates", AT)], [], ["AMGe member functions"])

p("C27", "The local eigenproblem is shifted, constrained and shifted back",
  "The eigenvalues reported for an agglomerate are those of the assembled matrix: the shift added to its diagonal before solving is subtracted from each of them, with whichever eigensolver, the smallest ones are requested, and the diagonal reported is that of the matrix before shifting. Diagonal entries of constrained unknowns are set large enough, after shifting, to keep their vectors out of the requested ones.",
  ["inputs", "configurations"], "every agglomerate matrix, set of constraints and eigensolver",
  "Tests check one eigensolver per configuration with tolerances.",
  [AH], [("compute_local_eigenvectors", AH)], [], ["compute_local_eigenvectors"])

p("C28", "Multivector operations honour the eigensolver library's contract",
  "Copies made of a multivector share no vector with the original while views share exactly the selected ones, and the block operations compute alpha A + beta B, mv*beta + alpha A B, scalings, inner products A^T B, norms and block assignments for every column, index set and range. The sum is right also when the result is one of the operands.",
  ["inputs"], "every multivector, index list, range, coefficient and permitted aliasing",
  "Tests run one eigensolver configuration that uses few of them.",
  [TR, "include/mfmg/dealii/multivector.hpp"], [("MultiVecTraits", TR), ("MultiVector", "include/mfmg/dealii/multivector.hpp")], [], ["Anasazi::MultiVecTraits"])

p("C29", "Visualisation output lists exactly the files the processes write",
  "The parallel record written by the master process names, for every process exactly once, the file that process writes. Each file holds that process's cells with their agglomerate numbers, and zero for cells it does not own.",
  ["configurations", "inputs"], "every process count and file name",
  "No test reads the record.",
  [AT], [("AMGe::output", AT)], [], ["AMGe::output"])

p("C30", "Public headers can be included in any number of translation units",
  "Every function and variable a public header defines is inline, a template or internal, and every public header compiles on its own, so that programs of several source files using the library link.",
  ["programs"], "every program including the public headers in any order in several translation units",
  "Each test is a single translation unit.",
  [H, "include/mfmg/common/level.hpp", DH], [("headers", H)], [], ["include/mfmg"])

p("C31", "Objects owned by hand are released exactly once",
  "Every object the library obtains from a call that transfers ownership or from new is owned by a smart pointer or deleted exactly once on every path that returns normally, and not used afterwards. References and views kept by long-lived objects refer to objects that live at least as long.",
  ["histories", "inputs"], "every path",
  "A leak or early release is not observable in passing tests.",
  [HH, MH, TM, SM, SO], [("ap in build_restrictor", HH), ("smart pointers", SO)], [], ["library"])

p("C32", "Coarse solver solves with its own operator and honours its options",
  "The coarse solver built for an operator is initialised from that operator's matrix, solves A x = b for the given b into the given x, and uses the direct or multilevel method named in the configuration. User-supplied multilevel options override the defaults of the smoothed-aggregation setting, and defaults not mentioned stay in force.",
  ["inputs", "configurations"], "every operator, right-hand side and option tree",
  "Tests check convergence for one option tree.",
  [SO, UT], [("DealIISolver", SO)], [], ["Solver::apply"])

p("C33", "Matching options reach every eigensolver and backend alike",
  "An option has the same key, type and default in the assembled and the matrix-free backend (the default methods of smoother and eigensolver apart, which have to differ), and every option handed on to an inner solver is handed on under the key, with the type, that the inner solver reads. No option a component reads lacks a default or a mandatory read that fails with an exception.",
  ["configurations"], "every configuration",
  "A misspelt key silently falls back to a default.",
  [HH, MH, AH, LZ, AN], [("ptree reads and writes", AH)], [], ["configuration"])

p("C34", "Two-grid convergence is bounded independently of the mesh",
  "With the spectral coarse space, the two-grid method converges at a rate bounded away from one for the elliptic problems the library targets.",
  ["inputs", "configurations"], "every mesh, coefficient and partition",
  "Tests sample a few problems.",
  [H, AH], [("whole algorithm", H)], [], ["Hierarchy::apply"])

p("C35", "Eigensolvers find the smallest eigenpairs to the requested accuracy",
  "The eigenpairs returned are approximations, within the tolerance, of the smallest ones of the operator, with multiplicity.",
  ["inputs"], "every symmetric operator and tolerance",
  "Tests sample a few operators.",
  [LZ, AN, AH], [("Lanczos, LOBPCG, ARPACK, LAPACK", LZ)], [], ["Lanczos::solve"])

p("C36", "Device kernels compute what the host backend computes",
  "The CUDA backend produces the same restriction, operators and cycle as the host backend.",
  ["inputs", "configurations", "schedules"], "every input and launch configuration",
  "No CUDA compiler or device is available; nothing of it is built or tested here.",
  ["source/cuda/utils.cu", "include/mfmg/cuda/amge_device.templates.cuh"], [("kernels", "source/cuda/utils.cu")], [], ["CUDA backend"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
