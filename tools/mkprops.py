#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ALG = "src/hif/alg/"
p("P01", "Preconditioner solve and preconditioner multiply undo each other",
  "For every successfully built preconditioner whose reported rank is the system size, applying the preconditioner product and then the preconditioner solve (in either order, plain or transposed) returns the original vector up to round-off. Both operations are linear maps of their argument and do not modify the argument.",
  ["inputs", "configurations"], "all square matrices, all option settings (including aggressive dropping), one or many levels, all four value types, plain and transposed",
  "The multiply kernel is exercised by the tests only on a couple of generated matrices with default options; the pairing has to hold for each level shape (empty E/F, fully deferred, dense-only) that options can produce.",
  ["src/hif/builder.hpp", ALG+"prec_solve.hpp", ALG+"prec_prod.hpp"],
  [("recursive two-sided block solve", "prec_solve.hpp prec_solve/prec_solve_tran"), ("recursive block product", "prec_prod.hpp prec_prod/prec_prod_tran"), ("dense last level solve/multiply", "QRCP.hpp, SYEIG.hpp, LUP.hpp")],
  ["HIF::solve", "HIF::mmultiply"])
p("P02", "Without dropping, the factorization is exact for every option setting",
  "If numerical dropping and fill limits are switched off, then for every nonsingular, reasonably conditioned matrix the preconditioner reproduces the matrix: solving with A*x returns x, and multiplying x gives A*x, up to round-off times conditioning. This holds regardless of pivoting mode, reordering, scaling, symmetric mode, leading-block size, level-size thresholds, storage layout and value type.",
  ["inputs", "configurations"], "all nonsingular inputs (zero diagonals, structurally awkward, badly ordered) and all combinations of documented options, 1..many levels",
  "Unit tests check isolated kernels or loose residual reductions with default options; the product space of pivoting x ordering x scaling x symmetric x multilevel is untested, and the deferral paths depend on numerical coincidences.",
  [ALG+"factor.hpp", ALG+"symm_factor.hpp", ALG+"pivot_factor.hpp", ALG+"Crout.hpp", ALG+"Schur.hpp", ALG+"PivotCrout.hpp", "src/hif/builder.hpp"],
  [("deferred Crout factorization", "factor.hpp level_factorize"), ("pivoted Crout", "pivot_factor.hpp"), ("Schur complement update", "Schur.hpp compute_Schur_simple"), ("level recursion", "builder.hpp _factorize_kernel")],
  ["HIF::factorize", "HIF::solve", "HIF::mmultiply"])
p("P03", "Transposed operations are the conjugate transposes of the plain ones",
  "The matrix represented by the transposed preconditioner solve is the conjugate transpose of the one represented by the plain solve, and likewise for the preconditioner product. This holds for real and complex types, with any number of levels, any truncation rank, and for symmetric (Hermitian) mode.",
  ["inputs", "configurations"], "all factorizations, every pair of basis vectors, real and complex",
  "Tests compare transposed solves only on a handful of real matrices; each level applies four permutations and two scalings whose transposed order must be exactly reversed and conjugated.",
  [ALG+"prec_solve.hpp", ALG+"prec_prod.hpp", "src/hif/small_scale/QRCP.hpp", "src/hif/small_scale/SYEIG.hpp", "src/hif/small_scale/LUP.hpp"],
  [("reversed transposed recursion", "prec_solve.hpp prec_solve_tran"), ("conjugated triangular kernels", "CompressedStorage.hpp *_tran")],
  ["HIF::solve(trans)", "HIF::mmultiply(trans)"])
p("P04", "Solving several right-hand sides at once equals solving them one by one",
  "A multiple right-hand-side solve returns, column by column, the same vectors as single right-hand-side solves with the same truncation rank, for every block width, and leaves the right-hand sides untouched. It does so whatever the preconditioner object was used for before.",
  ["inputs", "configurations", "histories"], "block widths 1..8, any number of levels, any earlier sequence of calls on the object, all value types",
  "The multi-RHS path is covered by one two-column test on one matrix; the shared work buffer makes it depend on which calls came before.",
  ["src/hif/builder.hpp", ALG+"prec_solve.hpp", "src/hif/small_scale/QRCP.hpp", "src/hif/small_scale/SYEIG.hpp", "src/hif/ds/CompressedStorage.hpp"],
  [("work buffer sizing", "builder.hpp solve_mrhs"), ("mrhs recursion", "prec_solve.hpp prec_solve_mrhs")],
  ["HIF::solve_mrhs"], [("work buffer", "scratch memory reused between calls", "builder.hpp _prec_work")])
p("P05", "Results depend only on the last factorization, never on call history",
  "Whatever sequence of factorizations, solves, multiplies, refinements, clears and failed calls came before, every query and every solve on a preconditioner object gives bit-for-bit the answer that a fresh object given only the last factorization would give. After clear, or before the first factorization, the object reports itself empty and refuses to solve.",
  ["histories"], "all sequences of public operations, including refactorization with another matrix, size or option set, and failed calls in between",
  "Each unit test uses a fresh object and one fixed sequence; stale buffers, statistics, work-space sizes and row counts only show up in longer histories.",
  ["src/hif/builder.hpp", ALG+"IterRefine.hpp", ALG+"Prec.hpp"],
  [("wipe before refactorization", "builder.hpp factorize"), ("clear", "builder.hpp clear")],
  ["HIF public queries and solves"], [("levels", "list of per-level factors", "builder.hpp _precs"), ("stats", "counters", "builder.hpp _stats"), ("work buffers", "scratch", "builder.hpp _prec_work; IterRefine")])
p("P06", "The input matrix is never modified and its representation does not matter",
  "Factorizing leaves the caller's matrix arrays bit-for-bit unchanged, also when it fails. The resulting preconditioner acts identically whether the same matrix was given row-wise 0-based, row-wise 1-based, through raw arrays, or in another value precision that represents the same numbers, and acts as an equally exact factorization when given column-wise; right-hand sides are never modified.",
  ["inputs", "configurations"], "all matrices whose entries are representable in both precisions, row-/column-major, 0-/1-based, raw-pointer and matrix-object entry points, all option settings",
  "The wrappers are shallow and cast away const, so any in-place step (scaling, index shifting) silently corrupts user data; tests rarely look at the input after the call.",
  ["src/hif/builder.hpp", ALG+"factor.hpp", "src/hif/pre/driver.hpp", "src/hif/ds/CompressedStorage.hpp"],
  [("shallow wrapping and base conversion", "builder.hpp factorize"), ("copy before scaling", "factor.hpp level_factorize / driver.hpp do_preprocessing")],
  ["HIF::factorize"])
p("P07", "Levels form a consistent chain: permutations, block shapes and accounting",
  "Every level partitions its rows and columns with genuine permutations and their inverses, the sizes of the factor and off-diagonal blocks match, the size of each next level is what the previous one left over, and only the last level may carry a dense block. The reported level count, nonzero counts, ranks, Schur sizes and deferral/dropping statistics are exactly those implied by the levels, and when nothing is dropped each level's factors, off-diagonal blocks and remainder reassemble to the scaled and permuted level matrix.",
  ["inputs", "configurations"], "all matrices and options, every level of the hierarchy",
  "No test inspects the levels of a multilevel factorization or recomputes the counts; swaps of deferred rows update several arrays in lock step.",
  ["src/hif/builder.hpp", ALG+"Prec.hpp", ALG+"factor.hpp", ALG+"pivot_factor.hpp", ALG+"symm_factor.hpp", ALG+"Schur.hpp", ALG+"Crout.hpp"],
  [("deferral bookkeeping", "Crout.hpp, factor.hpp"), ("level emplacement", "factor.hpp precs.emplace_back"), ("size queries", "Prec.hpp nnz, builder.hpp rank/levels")],
  ["HIF::precs", "HIF::nnz/nnz_ef/nnz_ldu/rank/schur_rank/schur_size/levels/stats"])
p("P08", "User thresholds are honoured by every level's factors",
  "Every accepted pivot of an incomplete level has inverse magnitude within the diagonal threshold, the lower factor responds only to the lower drop tolerance and fill limit and the upper factor only to the upper ones, and the entries per column (row) never exceed the fill limit times the count in the input. With zero tolerance and no fill limit nothing is reported as dropped, and what is reported as dropped by space control never exceeds the total dropped.",
  ["inputs", "configurations"], "all matrices and all values of drop tolerances, fill factors and conditioning thresholds, for the two sides independently",
  "Tests run with equal tolerances on both sides and default fill, so swapped or ignored thresholds are invisible.",
  [ALG+"factor.hpp", ALG+"symm_factor.hpp", ALG+"pivot_factor.hpp", ALG+"thresholds.hpp", ALG+"Crout.hpp"],
  [("determine_fac_pars", "factor.hpp"), ("apply_num_dropping / apply_space_dropping", "thresholds.hpp"), ("diagonal and inverse-norm tests", "factor.hpp while(!pvt)")],
  ["HIF::precs (L_B, U_B, d_B)", "HIF::stats"])
p("P09", "Thread count and concurrent use of separate objects never change results",
  "The preconditioner and every product computed with any number of threads is the one computed with a single thread, and the work distribution covers each row exactly once. Separate preconditioner objects used concurrently from different threads behave as if used sequentially.",
  ["schedules", "configurations", "inputs"], "thread counts 1..16 including more threads than rows, all matrices large enough to take the parallel code paths, arbitrary interleavings of independent objects",
  "The tests are too small to enter the parallel branches and never use two threads at a time.",
  ["src/hif/utils/mt.hpp", "src/hif/utils/mt_mv.hpp", ALG+"Schur.hpp", "src/hif/ds/CompressedStorage.hpp"],
  [("uniform partition", "mt.hpp"), ("parallel Schur complement", "Schur.hpp"), ("parallel mat-vec", "mt_mv.hpp")],
  ["HIF::factorize(threads)", "mt::multiply_nt"])
p("P10", "Null-space filtering removes exactly the requested component",
  "With a constant-mode filter on an index range, every solve returns the unfiltered solution minus its mean over that range inside the range and unchanged outside; with user vectors set or a user callback, the filter applies exactly that projection or callback. The right filter affects only plain solves, the left filter only transposed ones, and removing the filter restores the original results.",
  ["inputs", "histories", "configurations"], "all ranges, all solutions, single and refined solves, plain and transposed, setting/clearing filters between calls",
  "Only one constant filter over the whole vector is sampled in tests; ranges, callbacks and left filters are not.",
  ["src/hif/NspFilter.hpp", "src/hif/builder.hpp", ALG+"IterRefine.hpp"],
  [("filter application", "NspFilter.hpp filter"), ("hook in solve", "builder.hpp solve")],
  ["HIF::nsp", "HIF::nsp_tran", "HIF::solve", "HIF::hifir"])
p("P11", "Iterative refinement follows its protocol and reports truthfully",
  "Refinement with N steps performs exactly the recurrence x <- x + M^{-1}(b - A x) starting from zero; N of one or less is a plain solve. With residual bounds it stops at the first step whose relative residual falls below the lower bound (converged), exceeds the upper bound (diverged), or when N steps are used up, returning that step count and flag, and a zero right-hand side gives a zero solution.",
  ["inputs", "configurations", "histories"], "all N, all residual histories (converging, stagnating, diverging), plain and transposed, user matrix or callback",
  "Tests only look at converging cases on the library's own matrix type; the stopping automaton has five exits of which one is sampled.",
  [ALG+"IterRefine.hpp", "src/hif/builder.hpp"],
  [("refinement loop", "IterRefine.hpp iter_refine")],
  ["HIF::hifir"])
p("P12", "Rank-deficient systems get a truncated, finite and consistent answer",
  "For singular matrices the reported rank never exceeds the system size, equals it only if no direction was judged dependent, and counts exactly the directions of the last level's block that are not negligible relative to its largest one (the true rank of the matrix, without dropping, when that block is not itself round-off). Solves with the default or a requested smaller rank use exactly that many leading directions of the last-level block, stay finite, and satisfy the projector identity solve(multiply(solve(b))) = solve(b).",
  ["inputs", "configurations"], "singular and near-singular matrices of every rank, requested ranks 1..size, both dense solvers",
  "Tests include one or two singular matrices; truncation interacts with pivoting, deferral and both dense kernels.",
  ["src/hif/small_scale/QRCP.hpp", "src/hif/small_scale/SYEIG.hpp", "src/hif/builder.hpp", ALG+"prec_solve.hpp"],
  [("condition estimation and truncation", "QRCP.hpp factorize"), ("truncated eigen-decomposition", "SYEIG.hpp factorize"), ("rank bookkeeping", "builder.hpp rank")],
  ["HIF::rank", "HIF::schur_rank", "HIF::solve(r)"])
p("P13", "The C library's handles follow their documented protocol",
  "Every C call on a null handle, a size mismatch, an empty preconditioner or a failing factorization returns the documented status, changes nothing observable, lets no exception escape, and leaves the handle usable; creation, wrapping, setup, update, refactorization and destruction in any order have the documented effect. Size and statistics queries always describe the last successful setup, and the matrix used for refinement is the one given by the last create, setup or update.",
  ["histories", "inputs"], "all sequences of C calls on matrix and preconditioner handles, valid or not",
  "The C tests run one happy path per type; error returns and call orders are never exercised.",
  ["libhifir/src/libhifir.cpp", "libhifir/include/libhifir.h"],
  [("status codes", "libhifir.cpp macros"), ("handle state", "libhifir.cpp LhfdHif struct")],
  ["lhf?Create/Setup/Update/Refactorize/Apply/Solve/GetStats/..."])
p("P14", "The C library computes what the C++ library computes, for all types",
  "For each of the real/complex, single/double and mixed-precision variants, with either index width, the C library's solve, transposed solve, product, refinement and multi-step apply return the vectors that the C++ preconditioner with the same matrix and parameters gives, up to round-off of the preconditioner's precision. The requested rank, iteration count and residual bounds are passed through, and the parameter array controls exactly the option its index documents.",
  ["inputs", "configurations"], "all value-type variants, row-/column-major input, every operation, every parameter slot",
  "The C tests compare residuals loosely for two types; mixed-precision and several operations are never called.",
  ["libhifir/src/libhifir.cpp", "libhifir/include/libhifir.h", "src/hif/Options.h"],
  [("parameter array mapping", "libhifir.cpp create_params"), ("apply dispatch", "libhifir.cpp")],
  ["lhf?Apply", "lhf?Solve", "lhfsd/lhfcz variants"])
p("P15", "Matrix Market files round-trip and are interpreted by the standard",
  "Writing a sparse matrix or a vector in Matrix Market format and reading it back in either storage layout gives the same matrix exactly, and reading any valid file expands symmetric, skew-symmetric and Hermitian storage, honours real and complex fields and arbitrary entry order, comments and blank lines. Files with an unsupported or unrepresentable field and malformed files are rejected with an error instead of producing a matrix, and the file is closed either way.",
  ["inputs"], "all banner combinations, entry orders, duplicates-free patterns incl. diagonal-only and empty, both layouts and all value types",
  "Tests read a few fixed files; expansion of symmetric storage depends on the pattern (e.g. only diagonal entries).",
  ["src/hif/utils/io.hpp", "src/hif/utils/coo2compress.hpp", "src/hif/ds/CompressedStorage.hpp", "src/hif/ds/Array.hpp"],
  [("banner parsing", "io.hpp mm_read_firstline"), ("symmetric expansion", "io.hpp mm_read_sparse_data"), ("COO conversion", "coo2compress.hpp")],
  ["CRS/CCS::from_mm", "read_mm/write_mm functions", "Array::from_mm", "lhfQueryMmFile"])
p("P16", "Native binary and ASCII files round-trip exactly between layouts and types",
  "A sparse matrix written in the native binary or ASCII format and read back, in the same or the other storage layout, is the same matrix including its sizes, leading-block size and every value; information queried from the file equals what was written. Files whose recorded types or layout cannot be honoured are rejected rather than misread.",
  ["inputs", "configurations"], "all matrices (empty rows, rectangular), both layouts, all value and index types",
  "Tests round-trip one random matrix in one layout.",
  ["src/hif/utils/io.hpp", "src/hif/ds/CompressedStorage.hpp"],
  [("native writer/reader", "io.hpp")],
  ["CompressedStorage write/read native"])
p("P17", "Array handles share, copy and release memory as documented",
  "Copying an array shares its storage, an explicit deep copy or value copy never does, wrapping external memory never frees or reallocates it, and storage is released exactly when its last owner goes away. Growing keeps the entries and never touches other owners' view of their data, resizing within the capacity never reallocates, a handle whose allocation failed is empty, and status and size queries always describe the handle truthfully. Dense matrices follow the same rules, with element (i,j) at i + j*nrows and row/column traversals in order.",
  ["histories", "inputs"], "all sequences of construction, wrapping, copy, move, swap, assign, resize, reserve on a few handles",
  "Unit tests check a few fixed sequences of two handles; aliasing errors need particular interleavings of copy and resize.",
  ["src/hif/ds/Array.hpp", "src/hif/ds/DenseMatrix.hpp"],
  [("reference counting", "Array.hpp"), ("status flag", "Array.hpp DATA_UNDEF/OWN/WRAP")],
  ["Array public interface"])
p("P18", "Compressed-storage operations agree with dense matrix algebra",
  "Products, transposed products, triangular solves, transposition, layout conversion, scaling, permutation, pruning, leading-block and off-diagonal extraction and column/row splitting on row- and column-wise storage give exactly what the same operation on the dense matrix gives, for rectangular and empty shapes, single vectors and blocks. Operations documented as producing sorted or validated output do so, and validity checks accept precisely the well-formed structures.",
  ["inputs"], "all sparsity patterns up to a bound, all shapes including 0 rows/columns, real and complex values, both layouts and index bases",
  "Tests sample random square matrices; the multi-RHS, transposed, rectangular and empty cases are not covered.",
  ["src/hif/ds/CompressedStorage.hpp", "src/hif/utils/mt_mv.hpp", "src/hif/utils/mv_helper.hpp"],
  [("kernels", "CompressedStorage.hpp")],
  ["CRS, CCS public interface"])
p("P19", "Augmented storage and permutations stay consistent under updates",
  "After any sequence of appending columns/rows, interchanging and deferring lines, the linked secondary structure of the augmented storage enumerates for each line exactly the entries a dense mirror contains. Permutation objects always represent a bijection whose inverse matches, also after swaps and rebuilds.",
  ["histories", "inputs"], "all sequences of pushes, interchanges and deferrals allowed by the interface, row- and column-wise",
  "Tests perform a few random interchanges; the linked lists have head/tail cases that need specific orders.",
  ["src/hif/ds/AugmentedStorage.hpp", "src/hif/ds/PermMatrix.hpp"],
  [("linked lists", "AugmentedStorage.hpp"), ("interchange", "AugmentedStorage.hpp _interchange")],
  ["AugCRS, AugCCS, BiPermMatrix public interface"])
p("P20", "Preprocessing produces valid scalings, matchings and orderings",
  "For every structurally nonsingular matrix the matching-based preprocessing returns positive finite power-free scalings and permutations such that the permuted scaled matrix has unit-magnitude matched diagonal and no entry of larger magnitude; fill-reducing orderings are permutations of all rows, also for empty, diagonal, disconnected and dense patterns. Structurally deficient or empty rows and columns never yield non-finite scalings or invalid permutations, and the reported leading size counts only rows with usable diagonal.",
  ["inputs", "configurations"], "all sparsity patterns and value scales, symmetric and unsymmetric preprocessing, every ordering method",
  "Tests check a couple of matrices; matching has deep case analysis on structural rank.",
  ["src/hif/pre/equilibrate.hpp", "src/hif/pre/matching_scaling.hpp", "src/hif/pre/amd.hpp", "src/hif/pre/rcm.hpp", "src/hif/pre/reordering.hpp", "src/hif/pre/a_priori_scaling.hpp", "src/hif/pre/driver.hpp"],
  [("MC64-like matching", "equilibrate.hpp"), ("symmetric preprocessing", "matching_scaling.hpp"), ("AMD / RCM", "amd.hpp, rcm.hpp")],
  ["do_preprocessing / do_maching / run_amd / run_rcm", "HIF::precs (s,t,p,q)"])
p("P21", "Options: names, defaults, text form and C parameters agree",
  "Setting an option by name changes exactly that option to exactly that value and unknown names are refused; reading options from their sequential text form sets every option in declaration order, and the printed form shows the current value of every active option; the defaults are the documented ones in every interface. The C parameter array positions, defaults and symbolic constants denote the same settings as the C++ ones.",
  ["inputs", "configurations"], "every option name and value, every option vector, every parameter slot and constant",
  "Tests set a few options and never round-trip the text or compare the C constants.",
  ["src/hif/Options.h", "libhifir/src/libhifir.cpp", "libhifir/include/libhifir.h"],
  [("name table", "Options.h set_option_attr"), ("text forms", "Options.h operator>>, opt_repr")],
  ["hif::set_option_attr", "operator>>, opt_repr", "lhfSetDefaultParams"])
p("P22", "Invalid input is refused cleanly and the object stays usable",
  "Ill-formed matrices (wrong pointer array, out-of-range, unsorted or duplicate indices, zero or non-square sizes, null rows) and size-mismatched vectors are rejected with an error when checking is on, without touching memory outside the given arrays. After a rejected call the object either still answers as before or reports itself unusable, and a following valid factorization gives the normal result.",
  ["inputs", "histories", "fault_sequences"], "every single corruption of a valid compressed matrix, every wrong vector length, at every point of a call history",
  "Tests only feed valid matrices; each corruption class has its own check.",
  ["src/hif/builder.hpp", "src/hif/ds/CompressedStorage.hpp", "src/hif/utils/log.hpp"],
  [("check_validity", "CompressedStorage.hpp"), ("hif_error_if", "log.hpp")],
  ["HIF::factorize", "HIF::solve"])
p("P23", "Sparse work vectors and entry selection keep exactly the right entries",
  "The sparse accumulator behaves as a set of distinct indices with values: additions, deletions, compressions and resets leave precisely the expected index set whatever the order of calls. Threshold selection removes exactly the entries not exceeding the tolerance, space-limited selection keeps exactly the permitted number of largest-magnitude entries, and off-diagonal dropping does so for each row of the lower block and each column of the upper block against its own limit, a nonpositive limit dropping all, for any number of threads.",
  ["histories", "inputs"], "all sequences of operations on a sparse vector, all magnitude patterns including ties, all limits including 0 and 1",
  "Tests check one or two random sequences; ties, single-slot limits and delete-then-add sequences are not covered.",
  ["src/hif/ds/SparseVec.hpp", ALG+"thresholds.hpp", ALG+"Schur.hpp"],
  [("dense tags", "SparseVec.hpp"), ("nth_element selection", "thresholds.hpp")],
  ["SparseVector", "apply_num_dropping", "apply_space_dropping", "drop_L_E", "drop_U_F"])
p("P24", "Dense last-level solvers factor, solve and multiply consistently",
  "For every square dense matrix the rank-revealing QR, the symmetric eigenvalue and the LU solvers return, for full rank, the exact solution plain and transposed, and their multiply is the inverse of their solve; for deficient matrices they report the numerical rank, and solve with the best-conditioned leading directions. Multi-RHS variants agree with single ones, zero, one-by-one and diagonal matrices included.",
  ["inputs", "configurations"], "all small integer matrices up to a bound, random larger ones, real and complex, definite and indefinite, requested ranks",
  "Tests use random nonsingular matrices of one size; zero matrices, sign-definite truncation and blocks of right-hand sides are not sampled.",
  ["src/hif/small_scale/QRCP.hpp", "src/hif/small_scale/SYEIG.hpp", "src/hif/small_scale/LUP.hpp", "src/hif/ds/DenseMatrix.hpp", "src/hif/small_scale/lapack.hpp"],
  [("QRCP", "QRCP.hpp"), ("SYEIG", "SYEIG.hpp"), ("LUP", "LUP.hpp")],
  ["QRCP, SYEIG, LUP public interface"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
