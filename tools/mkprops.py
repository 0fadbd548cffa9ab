#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list below is the source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': w} for n, w in state]
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})
Q, AX, LD = 'src/qpSWIFT.c', 'src/Auxilary.c', 'src/ldl.c'
PY, MX, S1, S2 = 'python/pyqpSWIFT.c', 'matlab/qpSWIFT_mex.c', 'simulink/qpSWIFT_sfunc.c', 'simulink/qpSWIFT_sfunc_e.c'

p('S01', 'An optimal status certifies the KKT conditions, and only they stop a solve',
  "When a solve reports optimal, the returned x, y, z, s satisfy for the caller's own P, c, A, b, G, h: the Euclidean norms of Px+c+A'y+G'z, of Ax-b and of Gx+s-h are each below reltol/sqrt(3), and s'z/m is below abstol, with the options in force when the solve was started. Conversely, an iterate that meets these four tests is accepted as optimal at once, unchanged, instead of being iterated on or reported otherwise.",
  ['inputs', 'configurations'], "every problem with n>=1, m>=1, p>=0 (symmetric P stored in full), every current iterate and every reltol, abstol",
  "Tests solve a few fixed QPs and compare x with stored digits; a weakened, misscaled or skipped test of one residual still passes on problems where all residuals fall together.",
  [Q, AX], [('convergence test', 'QP_SOLVE loop head'), ('residuals', 'computeresiduals'), ('norms', 'norm, innerproduct')],
  [('stats n_rx, n_ry, n_rz, n_mu', 'residual norms and complementarity of the current iterate')], ['return value of QP_SOLVE', 'x, y, z, s', 'stats'])
p('S02', 'The exit status and iteration count of every solve are truthful',
  "A solve performs at most maxit iterations; it returns the maximum-iterations status exactly when it used all of them without meeting the optimality tests, never optimal for an iterate that fails them or has a NaN residual, and the returned value equals the status recorded in the statistics. The recorded iteration count grows by exactly the number of steps this solve took. This holds for every call in a sequence of solves on the same problem, with the tolerances and limit in force at that call.",
  ['inputs', 'histories', 'configurations'], 'all option values, all iterates including non-finite data, and all sequences of solve calls with options changed in between',
  'Tests call the solver once per problem with the default limit; boundary limits, repeated solves and non-finite data are not enumerable.',
  [Q], [('iteration loop and status', 'QP_SOLVE'), ('initial status', 'QP_SETUP, QP_SETUP_dense')], [('stats Flag / IterationCount', 'status and count')], ['return value', 'stats->Flag', 'stats->IterationCount'])
p('S03', 'Slacks and inequality multipliers are strictly positive at every iterate',
  "After setup, and after every iteration of a solve started from strictly positive s and z, every component of the slack vector s and of the inequality multipliers z is strictly positive, provided the search direction is finite.",
  ['inputs'], 'all problem data, all strictly positive iterates, all search directions, any number of constraints',
  'The tests look only at converged solutions; an unsafe step or shift needs a particular blocking component or sign pattern.',
  [AX, Q], [('initial shift', 'kkt_initialize, findminmax'), ('step to the boundary', 'findsteplength and the 0.99 factor in QP_SOLVE'), ('update', 'updatevariables')], None, ['s, z after QP_SETUP and after each QP_SOLVE iteration'])
p('S04', "Every iteration is a Newton step for the caller's optimality system",
  "One iteration with step sizes ap (for x and s) and ad (for y and z) scales the residuals of the caller's problem exactly as a Newton step does: Gx+s-h and Ax-b are multiplied by 1-ap, and the dual residual satisfies ad*P(x+-x) + ap*(A'(y+-y)+G'(z+-z)) = -ap*ad*(Px+c+A'y+G'z) for the previous iterate. This holds up to rounding whenever no pivot of the factorisation had to be regularised.",
  ['inputs', 'configurations'], 'all P, A, G, c, b, h, all iterates, with and without equalities, both centring modes, any ordering',
  'A wrong sign, stale factorisation or wrong block in the direction often still converges on the sample problems, only more slowly.',
  [Q, AX, LD], [('linear system', 'updatekktmatrix, updatekktmatrix_b'), ('solve', 'kktsolve_1, kktsolve_2'), ('updates', 'updatevariables')], None, ['x, y, z, s before and after one iteration', 'stats alpha_p, alpha_d'])
p('S05', 'Centring and step lengths follow the predictor-corrector rule',
  "In each iteration the final direction satisfies s_i*dz_i + z_i*ds_i = -s_i*z_i + sigma*mu (minus the product of the predictor's ds_i and dz_i in predictor-corrector mode), with mu = s'z/m and sigma = max(sigma_d, min(1,rho)^3), rho being the complementarity ratio s'z after/before the predictor step to the boundary; in pure centring mode sigma = sigma_d and no predictor is taken. Each step size is the smaller of 1 and 0.99 times the largest step keeping that vector (s for the primal, z for the dual) nonnegative, the largest step counting as 1 when nothing blocks it within 1e10.",
  ['inputs', 'configurations'], 'all positive iterates, all directions, any m, both modes selected by sigma and sigma_d',
  'The rule is invisible in the converged result; tests check helper functions on one or two vectors.',
  [Q, AX], [('sigma and rho', 'QP_SOLVE, formrho'), ('right-hand side', 'form_ds'), ('step length', 'findsteplength')], None, ['iterates before and after one iteration', 'stats alpha_p, alpha_d', 'options sigma'])
p('S06', 'The reported objective is the objective of the returned point',
  "When a solve reports optimal, the reported objective value equals 1/2 x'Px + c'x at the returned x for the caller's P and c.",
  ['inputs'], 'all P, c and x, for the sparse and dense entry points',
  'Tests compare a handful of objective values to a loose tolerance.',
  [AX, Q], [('objective', 'obj_value')], None, ['stats->fval'])
p('S07', 'Setup starts from the least-squares point of the problem',
  "After setup, x and y solve the equality-constrained least-squares start system Px+A'y+G'w = -c, Ax = b, Gx-w = h (up to rounding when no pivot was regularised); with v = h-Gx, s equals v when every v_i is positive and v + 1 - min(v) otherwise, and z equals -v when every v_i is negative and -v + 1 + max(v) otherwise.",
  ['inputs', 'configurations'], 'all data, with and without equalities, sparse and dense entry, any ordering',
  'Tests check only converged results, which a wrong start usually does not change.',
  [AX, Q], [('start system', 'kkt_initialize, ldlinitialsolve'), ('shift', 'findminmax, kkt_initialize')], None, ['x, y, z, s after QP_SETUP'])
p('S08', 'Solving again, or after data updates, obeys the current problem data',
  "The problem vectors c, h and b are read from the caller's arrays when a solve runs, so after the caller changes c, h or b in place between solves, an optimal status refers to the changed vectors; re-solving an already optimal problem without changes returns optimal with x, y, z, s unchanged and no further iterations.",
  ['histories', 'inputs'], 'all sequences setup, solve, (change vectors), solve on one problem',
  'Tests solve each problem once.',
  [Q, AX], [('vectors held by reference', 'QP_SETUP, QP_SETUP_dense'), ('residuals recomputed per iteration', 'computeresiduals')], None, ['status and iterates of the second solve'])
p('L01', 'Factorise-and-solve returns the solution of the linear system',
  "For every symmetric matrix and permutation for which no pivot is tiny, the factorisation yields unit lower triangular L and diagonal D with LDL' equal to the permuted matrix, and the permute, forward, diagonal, backward and unpermute solves return the vector x with Kx = b.",
  ['inputs', 'configurations'], 'every sparsity pattern, values, right-hand side and permutation within the bound (up to rounding)',
  'Tests factorise a few fixed matrices; fill-in paths depend on the pattern and on the permutation.',
  [LD], [('numeric factorisation', 'LDL_numeric'), ('solves', 'LDL_lsolve, LDL_dsolve, LDL_ltsolve, LDL_perm, LDL_permt')], None, ['L, D and the solution vector'])
p('L02', 'Symbolic analysis predicts exactly the storage the factorisation fills',
  "For every symmetric pattern and permutation, the elimination tree parent of column j is the first off-diagonal row of column j of the factor, the column counts equal the fill of the symbolic factor, the column pointers are their running sums, and the numeric phase fills exactly those positions, each row index once and ascending per column, with no write outside them; the returned inverse permutation inverts the given one.",
  ['inputs'], 'every symmetric pattern and permutation within the bound',
  'Tests analyse a few patterns; fill depends combinatorially on pattern and permutation.',
  [LD], [('symbolic analysis', 'LDL_symbolic'), ('numeric phase', 'LDL_numeric')], None, ['Parent, Lnz, Lp, Li, Pinv'])
p('L03', 'Tiny pivots are regularised, others are left untouched',
  "A pivot whose magnitude exceeds 1e-14 is used exactly as computed; a pivot of magnitude at most 1e-14 is replaced by 1e-7 with the same sign (negative for zero and below), so that every stored pivot has magnitude above 1e-14, the factorisation always completes, and no division by zero can occur.",
  ['inputs'], 'all matrices including singular and indefinite ones',
  'Only matrices with a vanishing pivot reach the rule; tests have one or two.',
  [LD], [('pivot rule', 'LDL_numeric')], None, ['D', 'return value'])
p('L04', 'The input validators accept exactly the valid inputs',
  "The permutation check returns 1 exactly for vectors that contain each of 0..n-1 once, the LDL matrix check returns 1 exactly for column forms with zero first pointer, nondecreasing pointers and row indices within range, and the ordering's matrix check returns invalid exactly for malformed forms, jumbled exactly for well-formed ones with an unsorted or duplicate row index in some column, and OK otherwise. None of them modifies its matrix or permutation argument.",
  ['inputs'], 'all integer contents of the index arrays, all sizes within the bound, including n = 0 and missing arrays',
  'Index contents are a full 64-bit space per entry.',
  [LD, 'src/amd_valid.c'], [('permutation check', 'LDL_valid_perm'), ('matrix check', 'LDL_valid_matrix'), ('ordering check', 'amd_l_valid')], None, ['return values'])
p('L05', 'Partial refactorisation after a diagonal change equals full refactorisation',
  "After a full factorisation, when only the diagonal entries of the last m columns change, the reach routine marks exactly the columns of the factor that depend on them (and the last one), and the column-wise and the row-wise cached factorisations, given those marks or marks on every column, produce the same L and D as a full factorisation of the changed matrix (tiny pivots replaced alike), touch no memory outside their arrays, modify none of their inputs and leave the workspace zero.",
  ['inputs', 'histories'], 'every symmetric pattern and permutation within the bound, all values, successive changes',
  'The repository never calls these exported routines from a test; their skipping logic depends on the elimination tree of the permuted pattern.',
  [LD, AX], [('cached factorisations', 'LDL_cache_numeric, LDL_row_cache_numeric'), ('reach', 'test_reach'), ('row structure', 'Transpose_Row_Count')], None, ['Lx, D, marks'])
p('O01', 'The fill-reducing ordering always returns a permutation',
  "For every well-formed sparsity pattern (symmetric or not, with or without diagonal entries, empty or full rows) and every dense-row and aggressive-absorption setting, the ordering routine succeeds, returns each of 0..n-1 exactly once, leaves its input arrays unmodified, releases all memory it allocated and touches none outside its arrays.",
  ['inputs', 'configurations'], 'every pattern up to the bound, all control settings',
  'The quotient-graph code has many rare paths (absorption, mass elimination, dense rows, compaction) that depend on the pattern.',
  ['src/amd_order.c', 'src/amd_1.c', 'src/amd_2.c', 'src/amd_aat.c', 'src/amd_postorder.c', 'src/amd_post_tree.c'],
  [('driver', 'amd_l_order'), ('elimination', 'amd_l1, amd_l2'), ('postorder', 'amd_l_postorder, amd_l_post_tree')], None, ['P, status'])
p('O02', 'Malformed or unsorted ordering input is rejected or handled as documented',
  "The ordering routine returns the invalid status, without reading out of bounds, leaking or touching its output, for negative n, missing arrays, a nonzero first or decreasing column pointer or an out-of-range row index; for unsorted or duplicate row indices it returns OK-but-jumbled with a valid permutation, which for a symmetric pattern is the same as for its sorted duplicate-free form. Calling it without control or statistics arrays gives the same permutation.",
  ['inputs'], 'all contents of the index arrays within the bound',
  'Index contents are an unbounded space; tests try one or two malformed forms.',
  ['src/amd_order.c', 'src/amd_valid.c', 'src/amd_preprocess.c'], [('validation', 'amd_l_valid'), ('sort and deduplicate', 'amd_l_preprocess'), ('driver', 'amd_l_order')], None, ['status, P'])
p('O03', 'Allocation failure in the ordering is survived',
  "If any allocation inside the ordering routine fails, it returns the out-of-memory status, frees whatever it had allocated and writes outside no array; setup then falls back to the natural order, reports that status, and the problem still solves to the same point.",
  ['fault_sequences', 'inputs'], 'failure of each allocation of the ordering, for every problem within the bound',
  'Tests never make an allocation fail.',
  ['src/amd_order.c', Q, 'src/amd_global.c'], [('failure paths', 'amd_l_order'), ('fallback', 'QP_SETUP, QP_SETUP_dense')], None, ['AMD_RESULT, x, y, z, s'])
p('O04', 'The ordering reports truthful statistics and does not fill forests',
  "For every well-formed pattern and nonnegative dense-row parameter the ordering's statistics give exactly the status returned, the size, the number of entries (as stored), the number of diagonal entries, the matched share of off-diagonal entries as symmetry, the number of off-diagonal entries of A+A' and the number of rows removed as dense, and those rows come last in the permutation. The reported nonzeros of L, divisions, multiply-subtract counts and longest column are never below those of the true factor of the permuted pattern, and the nonzeros never exceed n(n-1)/2. A pattern whose graph is a forest, with no dense row, is ordered without any fill. Permutation and status do not depend on whether statistics are asked for.",
  ['inputs', 'configurations'], 'every pattern up to the bound, all three classes of dense parameter, both aggressive settings',
  'Setup sizes the factor and judges the ordering by these numbers; a wrong count or a lost minimum-degree choice leaves a valid permutation, so nothing fails.',
  ['src/amd_order.c', 'src/amd_aat.c', 'src/amd_2.c', 'src/amd_1.c', 'src/amd_postorder.c'], [('pattern statistics', 'amd_l_aat'), ('factor statistics', 'amd_l2'), ('driver', 'amd_l_order')], None, ['Info, P'])
p('O05', "The ordering's defaults, reports and hooks do what they say",
  "The default parameters are dense 10 and aggressive absorption on, the rest zero; the control report prints exactly the parameters given (the defaults if none) and the information report prints each known (nonnegative) statistic once with its given value, derived counts as the stated sums, unknown ones not at all and the status by name; neither changes its argument, and both print nothing when the print hook is off. The ordering itself prints nothing, and every block it uses is taken and given back through its memory hooks, whatever the outcome.",
  ['inputs', 'configurations'], 'all parameters, all statuses and values of pairs of statistics, all patterns within the bound',
  'The reports are never printed by a test and the hooks never replaced.',
  ['src/amd_control.c', 'src/amd_info.c', 'src/amd_defaults.c', 'src/amd_order.c', 'src/amd_global.c'], [('reports', 'amd_l_control, amd_l_info'), ('hooks', 'amd_malloc, amd_free, amd_printf')], None, ['output, parameters'])
p('M01', 'Dense input is converted without loss',
  "Converting a dense matrix in column-major or row-major order gives a compressed-column matrix whose dimensions are those given, whose stored entries are exactly the nonzero entries (NaN and infinities included, both zeros excluded) with their exact values at their row and column, rows ascending in each column, pointers starting at 0 and ending at the entry count.",
  ['inputs'], 'all dense contents, all shapes within the bound including a single row or column and all-zero matrices',
  'Tests convert a few matrices; which entries vanish is combinatorial.',
  [AX], [('conversion', 'densetosparse, densetosparse_ROWMAJOR')], None, ['jc, ir, pr, m, n, nnz'])
p('M02', 'Sparse transposition is exact',
  "The transpose of any compressed-column matrix holds exactly the original entries with row and column exchanged and values unchanged, with row indices ascending in each column and consistent pointers; the index-only transpose used for the factor's row structure does the same for indices.",
  ['inputs'], 'all patterns and values within the bound, including empty rows and columns and unsorted input columns',
  'Pattern space is combinatorial; tests transpose a few.',
  [AX], [('transpose', 'SparseMatrixTranspose'), ('index transpose', 'Transpose_Row_Count')], None, ['jc, ir, pr of the transpose'])
p('M03', 'The KKT matrix is assembled correctly for every sparsity pattern',
  "For every P, A, G, the assembled matrix is exactly [P A' G'; A 0 0; G 0 -I] in compressed-column form with the predicted entry count, and each refresh overwrites only the diagonal entries of the last m columns with -s_i/z_i; this includes structurally empty rows and columns of A and G and p = 0. The upper-triangle assembly for problems without equalities holds exactly the upper triangle of the same matrix.",
  ['inputs', 'configurations'], 'all patterns and values within the bound',
  'Empty rows, absent equalities and pattern combinations are combinatorial; tests use full-row constraints.',
  [AX, Q], [('assembly', 'formkktmatrix_full, formkktmatrix_U'), ('diagonal refresh', 'updatekktmatrix')], None, ['kkt matrix after setup and after an iteration'])
p('M04', 'The matrix-vector and vector kernels compute their documented formulas',
  "For all arguments, y -= Ax and y -= A'x with or without clearing y, x += alpha*d, inner product, Euclidean norm, minimum and maximum, the scaling vector sqrt(s*z), the three complementarity right-hand sides, the reduced right-hand side [rx; ry; rz - ds/z], the complementarity ratio and the boundary sign test return exactly (up to rounding) what their documentation defines and write nothing else.",
  ['inputs'], 'all patterns, values and lengths within the bound',
  'Tests call each with one vector.',
  [AX], [('kernels', 'SparseMatrixMultiply, SparseMatrixTransMultiply, updatevariables, innerproduct, norm, findminmax, formlambda, form_ds, updatekktmatrix_b, formrho, checksign')], None, ['outputs of the kernels'])
p('A01', 'Sparse, dense row-major and dense column-major entry are equivalent',
  "The same problem given in compressed-column form, dense row-major or dense column-major form yields bit-identical setup state and identical results (x, y, z, s, objective, status, iteration count) of every solve.",
  ['inputs', 'configurations'], 'all problems within the bound whose sparse form stores exactly the nonzeros in ascending row order, any permutation option',
  'Tests compare three forms on one problem with loose tolerances.',
  [Q, AX], [('entry points', 'QP_SETUP, QP_SETUP_dense'), ('conversion', 'densetosparse, densetosparse_ROWMAJOR')], None, ['all results'])
p('A02', "The caller's arrays are only read, and never freed",
  "Setup, solving and cleanup never write to nor free any array the caller supplied (matrix pointers, indices, values, c, h, b, permutation), and cleanup leaves them usable, whatever the status.",
  ['inputs', 'histories'], 'all problems and lifecycles within the bound, both entry points, with and without a user permutation',
  'Tests do not compare inputs before and after.',
  [Q, AX, LD], [('ownership', 'QP_SETUP, QP_SETUP_dense, QP_CLEANUP, QP_CLEANUP_dense')], None, ['caller memory'])
p('A03', 'The whole lifecycle is memory-safe and leak-free',
  "From setup through any number of solves to cleanup, no access leaves its allocation, uses freed or uninitialised memory or overflows an index, and cleanup releases every block setup and solve allocated exactly once; this includes missing A or b with p nonzero, p = 0, empty rows and columns, zero matrices and a user permutation.",
  ['inputs', 'histories', 'configurations'], 'all patterns, lifecycles and argument combinations within the bound',
  'Tests run without sanitizers on a few patterns.',
  [Q, AX, LD], [('allocation sizes', 'QP_SETUP, QP_SETUP_dense, ldlinitialsolve'), ('release', 'QP_CLEANUP, QP_CLEANUP_dense')], None, ['heap'])
p('A04', 'Absent equality constraints behave as no equality constraints',
  "If p is 0 or any of the arrays of A or b is missing, setup and solve behave exactly as for the same problem given with p = 0 and no A and b at all: same iterates, status and iteration count, and the recorded equality count is 0.",
  ['inputs', 'configurations'], 'all subsets of missing arguments, all problem data within the bound',
  'Argument combinations are not covered by tests.',
  [Q], [('selection of the equality block', 'QP_SETUP, QP_SETUP_dense')], None, ['all results'])
p('A05', 'Verbosity changes only what is printed',
  "With verbosity 0 (the default) setup, solve and cleanup print nothing; with any positive verbosity the results (x, y, z, s, objective, status, iteration count, step sizes) are identical to the silent ones and printing never reads uninitialised values.",
  ['inputs', 'configurations'], 'all problems and verbosity levels within the bound, with and without equalities, all statuses',
  'Tests do not capture output or compare verbose with silent runs.',
  [Q], [('printing', 'QP_SOLVE')], None, ['stdout, results'])
p('A06', 'Problem instances are independent and results deterministic',
  "Results of a solve depend only on its own problem and options: setting up, solving or cleaning up other instances in between, in any interleaving, changes nothing; and the library writes no global state, not even for the duration of a call, so instances in different threads share nothing.",
  ['histories', 'inputs'], 'all interleavings of two instances within the bound',
  'Tests use one instance at a time.',
  [Q, AX, LD, 'src/amd_global.c'], [('state', 'no mutable globals: all state hangs off the QP structure')], None, ['results, globals'])
p('A07', 'A user permutation is honoured and does not change the answer',
  "With a caller-supplied permutation the ordering routine is not called, that permutation is used and reported as user-defined, and setup and every iteration yield the same x, y, z, s as with the automatic ordering, up to rounding, whenever no pivot is regularised.",
  ['inputs', 'configurations'], 'all permutations and problems within the bound',
  'n! permutations; tests use at most one.',
  [Q, LD], [('permutation choice', 'QP_SETUP, QP_SETUP_dense'), ('permuted solves', 'LDL_perm, LDL_permt')], None, ['x, y, z, s', 'AMD_RESULT'])
p('A08', 'Defaults and setup results are as documented',
  "Immediately after any setup the options are maxit 100, reltol 1e-6, abstol 1e-6, sigma 100, verbose 0, the iteration count is 0, the status is not optimal, the recorded dimensions are those given, and the centring parameter is the one supplied (0 for the dense entry).",
  ['inputs', 'configurations'], 'all problems and both entry points within the bound',
  'Tests check one problem.',
  [Q, 'include/GlobalOptions.h'], [('defaults', 'QP_SETUP, QP_SETUP_dense')], None, ['options, stats, dimensions'])
p('A09', 'What a verbose solve prints is true',
  "With positive verbosity a solve prints one line per iterate tested, showing the iteration count, objective, residual norms and duality gap of that very iterate, one line per step with the primal and dual step sizes taken, and at the end exactly one outcome, the one it returns, with the recorded KKT time, factorisation time and iteration count and the recorded solve time (for an optimal outcome including setup).",
  ['inputs', 'histories', 'configurations'], 'all verbosity levels, limits and tolerances, repeated solves and all outcomes over the problems within the bound',
  'Tests do not capture output; repeated solves make the printed and recorded counts drift apart unseen.',
  [Q], [('printing', 'QP_SOLVE')], None, ['stdout'])
p('T01', 'Reported times are the elapsed monotonic time',
  "For any two readings of the monotonic clock the timer returns their exact difference in seconds, never negative, with nanosecond borrow handled; the setup time is that of the setup, the solve and KKT times those of the last solve and the factorisation time the sum over the factorisations timed since setup, each a sum of such differences and nonnegative; the KKT time never exceeds the solve time, nor the factorisation time the total KKT time of the solves since setup.",
  ['inputs', 'histories'], 'all pairs of clock readings with 0 <= nanoseconds < 1e9, all clock behaviours during a solve',
  'A test cannot choose what the clock returns; the borrow happens once per second.',
  ['src/timer.c', Q, AX], [('timer', 'tic, toc'), ('accounting', 'QP_SETUP, QP_SOLVE, kktsolve_1')], None, ['stats tsetup, tsolve, kkt_time, ldl_numeric'])
p('P01', 'Python arguments are validated before anything is solved',
  "The Python entry point raises TypeError, and solves nothing, unless c, h (and b) are one-dimensional and P, G (and A) two-dimensional arrays of a floating type with mutually consistent sizes; consistent arguments are never rejected, and no attribute of an array is read beyond its number of dimensions.",
  ['inputs'], 'all dimension counts, sizes and element kinds of the six arrays, A and b each present or absent',
  'The combinations are many; the syntax test tries about a dozen wrong calls.',
  [PY], [('validation', 'method_qpSWIFT')], None, ['exception or result'])
p('P02', 'Python options are range-checked, applied exactly and defaulted',
  "MAXITER must be an integer in 1..199, ABSTOL and RELTOL floats strictly between 0 and 1, SIGMA a positive float, VERBOSE a nonnegative integer, otherwise TypeError is raised and nothing is solved; accepted options reach the solver unchanged, each absent option keeps its documented default, and a bad OUTPUT only warns and gives the default output.",
  ['inputs', 'configurations'], 'all presence combinations, types and values of the six options',
  'Value ranges are continuous and types many; the syntax test tries eleven wrong values.',
  [PY], [('option parsing', 'method_qpSWIFT')], None, ['exception, settings used by the solve'])
p('P03', 'Python results are the solver results',
  "The returned dictionary holds sol equal to x, and for OUTPUT 1 and 2 the exit flag, iteration count, setup and solve times, and for OUTPUT 2 the objective, KKT and LDL times and y (only with equalities), z and s, each equal to the solver's own value with the documented keys and lengths; the problem solved is exactly the one passed, as C-ordered doubles, whatever the memory layout or float type of the arrays.",
  ['inputs', 'configurations'], 'all results, sizes within the bound, output levels, with and without equalities',
  'The tests look at types and sizes of the results and at a handful of values.',
  [PY], [('result construction', 'method_qpSWIFT'), ('conversion', 'getptr')], None, ['returned dictionary'])
p('P04', 'The Python module neither leaks nor over-releases objects or memory',
  "Whatever the arguments, options and outcome, after a call every temporary array is released exactly once, caller-owned objects keep their reference counts, the result is owned once by the caller, all solver memory is freed, and the interpreter lock is held again; it is released at most around the solver, never while the Python API is used; an exception is set exactly when no result is returned.",
  ['inputs', 'configurations'], 'all success and error paths within the bound',
  'Reference counts on error paths are not observed by any test.',
  [PY], [('reference counting', 'method_qpSWIFT, getptr')], None, ['reference counts, heap, error indicator'])
p('X01', 'MATLAB arguments are validated before anything is solved',
  "The MATLAB entry raises an error, and solves nothing, for a wrong number of inputs or outputs, for matrices that are not real double sparse, vectors that are not real double dense with one unit dimension, for inconsistent sizes, or a permutation that is not a valid 1-based permutation; consistent arguments are never rejected.",
  ['inputs'], 'all argument counts, type flags and sizes within the bound',
  'MATLAB is not available to the tests at all.',
  [MX], [('validation', 'mexFunction')], None, ['error or result'])
p('X02', 'MATLAB options and data reach the solver unchanged',
  "Each option in upper or lower case reaches the solver unchanged when in its documented range and raises an error otherwise, absent ones keep their defaults, a 1-based permutation is passed 0-based, and the solver is called with exactly the arrays and sizes of the caller's P, c, A, b, G, h.",
  ['inputs', 'configurations'], 'all option presence combinations and values; 4 to 7 arguments',
  'MATLAB is not available to the tests at all.',
  [MX], [('option transfer', 'mexFunction')], None, ['QP_SETUP arguments and settings used by the solve'])
p('X03', 'MATLAB results are the solver results and memory is released',
  "For one, two or three outputs, the outputs are x and the documented structures with exit flag, iterations, setup and solve time, objective, KKT and LDL time, y (only with equalities), z and s, each equal to the solver's own value under its documented field name and size, and every block the call allocated is freed once.",
  ['inputs', 'configurations'], 'all results, output counts and sizes within the bound',
  'MATLAB is not available to the tests at all.',
  [MX], [('result construction', 'mexFunction')], None, ['plhs'])
p('X04', 'The Simulink blocks map ports to problem data and back',
  "Each block passes its input ports, in the documented order and sizes taken from the port widths, column-major, to the solver with default settings, and writes x, exit flag, iteration count, setup and solve time to the documented output ports, freeing the problem at every step.",
  ['inputs', 'configurations'], 'all port contents and widths within the bound, both blocks',
  'Simulink is not available to the tests at all.',
  [S1, S2], [('port mapping', 'mdlOutputs'), ('port declaration', 'mdlInitializeSizes')], None, ['QP_SETUP_dense arguments, output ports'])
ids = [x['id'] for x in P]
assert len(set(ids)) == len(ids)
for x in P: assert len(x['title']) <= 80, (x['id'], len(x['title']))
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
