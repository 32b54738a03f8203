"""property -> (module, function, rule text, needs the extracted program, technique, level note)"""
VG = "value-graph dataflow analysis (gated global value numbering) over the clang-resolved program"
TRUST = ("Trusts the clang front end, the extractor, the engine's loop summaries and the models of deal.II, "
         "Trilinos and standard library calls in sa/models.py. Calls through the library's virtual interfaces are "
         "replaced by their specification, which other checks decide for each implementation. ")

CHECKS = {
    "C01": ("rules_hier", "c01", "The value Hierarchy::apply leaves in x, as a normal-form term over smoother, "
            "operator, restriction and coarse cycle, equals the V-cycle term; recursion is replaced by the "
            "specification of the cycle on the next level (induction over levels).", True, VG,
            TRUST + "Decides the algebra of one cycle for every level, input and option value; rounding is ignored."),
    "C02": ("rules_hier", "c02", "Dependence of the resulting value term on the incoming iterate, for each "
            "combination of level and preconditioner flag; value of the starting-solution option handed to a "
            "one-level solver.", True, VG,
            TRUST + "Dependence is syntactic on the normal form, so an algebraic cancellation would not be seen."),
    "C03": ("rules_hier", "c03", "Value terms of every level object after the constructor, specialised for 1 to 4 "
            "levels and both product variants.", True, VG,
            TRUST + "Level counts 1 to 4 are analysed separately; larger counts are not."),
    "C04": ("rules_ops", "c04", "Value term of x after apply of every smoother class; for each documented smoother "
            "name in several spellings the class of the preconditioner made by the constructor and the matrix it is "
            "initialised from; value of each Chebyshev setting.", True, VG,
            TRUST + "Names and options outside the documented table are decided by C14."),
    "C05": ("rules_ops", "c05", "For every class deriving from Operator: the linear map applied in each mode, the "
            "matrix of products and transposes, the layout arguments of built vectors, or a throw on every path.",
            True, VG, TRUST + "The product formed column by column is decided by C06."),
    "C06": ("rules_amge", "c06", "Arguments, loop domains and guard of every entry set in the returned matrix, and the "
            "closed value term of the extracted row, against component i of A applied to row j of B.", True, VG,
            TRUST),
    "C07": ("rules_amge", "c07", "Row, column and value terms of every entry added to R, E and D, loop domains and "
            "advance of the eigenvector position; row distribution and entries of the sparsity pattern.", True, VG,
            TRUST),
    "C08": ("rules_amge", "c08", 'Row, column and value terms of every block of entries set in the correction, for boundary and halo patches; scaling of E; operands, flags and maps of the final sum; operator returned.', True, VG, TRUST + "Restriction, eigenvectors and their difference, the patches and their operators enter by their specification (C07, C09, C26)."),
    "C09": ("rules_amge", "c09", "The lists handed to the restriction's assembly and returned to the caller, as concatenations over the agglomerate counter of what the worker computed for that agglomerate.", True, VG, TRUST + "What is computed for one agglomerate enters by its specification (C26, C27)."),
    "C10": ("rules_flow", "c10", 'Guards and repetition counts of every call of a collective operation, with what each depends on, for every function of the library analysed with everything it calls; none inside the work of one agglomerate.', True, VG, TRUST + "The list of collective operations and of process-dependent queries is part of the rule; parameters of public functions are taken to agree on all processes."),
    "C11": ("rules_flow", "c11", "Owner of every location written, and of every cloneable evaluator called, while one agglomerate is worked on; intersection of what the copying step changes with what the work captures.", True, VG,
            TRUST + "External const member functions and the user's const evaluator functions are taken to be safe to call concurrently."),
    "C12": ("rules_flow", "c12", "Whether any value, guard or repetition count of the copying step depends on content the copy or scratch object had before the work item, under each combination of conditions that lets it run.", True, VG,
            TRUST + "Starting guesses handed to an eigensolver may be reused."),
    "C13": ("rules_flow", "c13", "Seed values of all generators, owner of the generator of every draw, seeding of the partitioner on every path to it, calls of unseeded or time dependent functions, containers iterated over.", True, VG + " and syntax queries",
            TRUST + "Determinism of deal.II, Trilinos and the numerical libraries themselves is assumed."),
    "C14": ("rules_safe", "c14", "For every choice made by comparing an option, the evaluator's type name or its dimension with constants: that the function throws when none matches, that each name leads to its own algorithm and no other, that names are lower-cased before the comparison.", True, VG, TRUST + "Which library class implements which documented name is part of the rule."),
    "C15": ("rules_safe", "c15", 'Every use of a narrowed pointer under its path condition (null must be excluded), that the public function throws when no narrowing succeeds, and the origin of every object narrowed without a check.', True, VG, TRUST),
    "C16": ("rules_safe", "c16", 'For every call returning a status code: an assertion (or throw) comparing that very status with success is reached under the same conditions before another call gets the objects the call filled.', True, VG, TRUST + "The list of functions whose integer result is no status is part of the rule."),
    "C17": ("rules_sys", "c17", 'For each kind of node (inner, reads as int, double, bool, anything else) the calls that fill the list on that case: exactly one, with the name of the node and its value under the expected type; all children visited; recursion into the sublist by induction; starts from an empty list.', True, VG, TRUST + "Parsing by boost::property_tree is trusted."),
    "C28": ("rules_eig", "c28", 'Value terms of every multivector operation offered to the eigensolver library: columns, entries and ownership of the result for a symbolic column, index set or range, with the trip count of every loop over columns; the sum also with the result as either operand.', True, VG, TRUST + "Rounding is ignored."),
    "C24": ("rules_eig", "c24", 'Value terms of the deflated operator and of the projection for any number of stored vectors, classification of every write to the stored vectors as addition, projection or scaling with the ranges of its loops, and, in the solver, the first Lanczos vector and the stored vectors of every cycle.', True, VG, TRUST + "Rounding and rank deficiency are ignored."),
    "C25": ("rules_mesh", "c25", "For every partitioner case of build_agglomerates: the first access to the cells' numbers sets or clears them for every owned cell, each numbering call has a target that its guard or the loop invariant of the walked-to cell implies to be owned, numbers come from a first-occurrence counter or a running sum over the used numbers, and the count stored and returned is the largest number.", True, VG, TRUST + "That the partitioner assigns a part to every cell is part of the trusted interface."),
    "C29": ("rules_mesh", "c29", 'Value terms of the file name a process writes and of the list handed to the record: entry J equals the name of process J for symbolic J, one entry per process, record written by exactly one process, cell data per symbolic cell.', True, VG, TRUST),
    "C27": ("rules_loc", "c27", "Diagonal of the matrix handed to each eigensolver as a term of the assembled matrix: one shift for all entries, then the constrained entries; reported eigenvalue plus shift equals the solver's own value for each solver; reported diagonal and vectors; multiple of the spectral bound guaranteed by the constrained value and the ends of the dense solver's interval; requested end of the spectrum.", True, VG, TRUST + "That the inner eigensolvers find the eigenpairs they are asked for is C35."),
    "C23": ("rules_lanczos", "c23", 'The Lanczos loop as a system of recurrences (values in the first round, in round m+1 and after them, for symbolic m): argument of the operator, remainder as a term of it, its predecessor and the two coefficients, normalisation, newest and older entries of the arrays handed to the tridiagonal eigensolver, order of that matrix, number of rounds, and every way of leaving early under its path condition.', True, VG, TRUST + "LAPACK and exact arithmetic are assumed; breakdown (a vanishing remainder) is ignored."),
    "C22": ("rules_lanczos", "c22", 'Value terms of the arrays the Lanczos driver returns, for one and several cycles with symbolic numbers of cycles and pairs: entry J of both arrays comes from the same position of one call, sorted by ascending value before the cut, never cut below the number requested; in the iteration, removal of artificial pairs from both arrays alike, stride and length of every combination, pairs recomputed in the round the iteration ends in, and reading only after the number found was checked. For the other solvers, that fewer pairs than requested are refused before use.', True, VG, TRUST + "LAPACK returns ascending eigenvalues with matching columns."),
    "C21": ("rules_guess", "c21", 'Value of entry j of the vector every eigensolver is given, for symbolic j, under the case that j is constrained (must be zero) and that it is not (must come from a random distribution); whether the constraints are those assembled for the agglomerate; for reused vectors, the writes that reset entries, their conditions and the ranges of their loops; the change between cycles as a function of the entry (must map zero to zero).', True, VG, TRUST),
    "C26": ("rules_patch", "c26", 'patch cells, boundary ids per combination of boundary faces, index map entries, and boundary lists as loop invariants', True, VG, TRUST),
    "C18": ("rules_time", "c18", 'every assignment of the conditions under which sections are entered and left: stack of open sections per path and loop round; null timer excluded', True, VG, TRUST),
    "C19": ("rules_comp", "c19", 'typestate of every distributed object: pending additions or insertions carried in its value term through branches, loops and calls; each compression, use, return judged against it', True, VG, TRUST),
    "C20": ("rules_effect", "c20", 'effect analysis: every write whose location starts at a parameter or a member of a function callers reach, resolved through references, pointers, casts and inlined calls, judged against what the declaration lets callers expect', True, VG, TRUST),
    "C30": ("rules_hdr", "c30", 'type checking and code generation (not execution) of each public header alone and together: compiler diagnostics, linkage of every symbol defined in the IR, lines contributed by each header', False, "compiler diagnostics and linkage of the definitions in the IR of every header", "Trusts the clang front end. The CUDA headers cannot be compiled here and are left out; headers are compiled in the configuration of the build."),
    "C31": ("rules_own", "c31", "every object made by new, handed over by a library or taken out of a smart pointer: the calls that release it and their conditions (exactly one on every path), uses afterwards, and owners of what smart pointers take over; every store of an address against the life of what it designates", True, VG, TRUST),
    "C33": ("rules_opt", "c33", 'every reading of a configuration tree with its full path, type and default, compared across backends; entries put into trees and lists handed to inner solvers against the keys and types these read', True, VG, TRUST),
    "C32": ("rules_ops", "c32", "For each documented coarse solver name: class and initialisation of the solver, value "
            "term of x after apply, content of the ML option list with and without user options.", True, VG, TRUST),
}

NA = {
    "C34": "a quantitative convergence bound for every mesh: no sound static argument in reach bounds the "
           "convergence rate; the structural necessary conditions are decided as C01-C08",
    "C35": "accuracy of floating-point eigenpairs depends on run-time spectra and rounding; its structural "
           "ingredients are decided as C22-C24 and C28",
    "C36": "CUDA sources are not part of the build here and there is no CUDA toolchain or headers, so the device "
           "code cannot be parsed into a resolved program",
}
