#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long texts stay editable).
import json, os
S='SLIP_LU/Source/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

# ------------------------------------------------------------------ SLIP_LU
p('S01','Every nonsingular system is solved exactly',
 'For every nonsingular square integer matrix in compressed-column form (unsorted columns and explicit zeros included) and every dense integer right-hand side with any number of columns, both the one-call solver and the analyze/factorize/solve sequence return success and exactly the rational solution of the system the user posed. This holds under every pivoting scheme, pivot tolerance in (0,1], column ordering, print level and solution-check setting, and for all scale factors attached to the matrix and the right-hand side.',
 ['inputs','configurations'],'all square integer matrices and right-hand sides, all option settings, all scale factors',
 'The suite solves 15 variants of one 4-by-4 system and three fixed demo systems; wrong answers that need a particular elimination pattern, pivot order, fill-in, sign, magnitude or scale never occur in them.',
 [S+'SLIP_backslash.c',S+'SLIP_LU_factorize.c',S+'SLIP_LU_solve.c',S+'slip_ref_triangular_solve.c',S+'slip_forward_sub.c',S+'slip_back_sub.c',S+'slip_reach.c',S+'slip_dfs.c',S+'slip_permute_b.c',S+'slip_permute_x.c',S+'slip_matrix_mul.c',S+'slip_matrix_div.c'],
 [('left-looking sparse integer-preserving elimination with history updates',S+'slip_ref_triangular_solve.c'),('integer-preserving forward and backward substitution',S+'slip_forward_sub.c, '+S+'slip_back_sub.c'),('application of scale factors to the solution',S+'SLIP_LU_solve.c')],
 ['SLIP_backslash','SLIP_LU_solve'])
p('S02','Singular is reported exactly for singular matrices',
 'Factorization reports a singular matrix if and only if the determinant is zero, under every pivoting scheme, tolerance and column ordering. A singular result leaves no factor, pivot vector, permutation or solution behind and leaks nothing.',
 ['inputs','configurations'],'all square integer matrices, structurally and numerically singular ones included, all option settings',
 'The tests contain one singular system; rank deficiency that appears only at a late step, by cancellation, or with an empty row or column under some ordering is not reached.',
 [S+'SLIP_LU_factorize.c',S+'slip_get_pivot.c',S+'slip_get_smallest_pivot.c',S+'slip_get_largest_pivot.c',S+'slip_get_nonzero_pivot.c',S+'SLIP_backslash.c'],
 [('pivot search that returns singular when no eligible nonzero candidate exists',S+'slip_get_*_pivot.c')],['SLIP_LU_factorize','SLIP_backslash'])
p('S03','The factors satisfy PAQ = L D^-1 U with minors as pivots',
 'After every successful factorization the row permutation is a permutation, L is lower and U upper triangular in valid compressed-column form, their diagonals equal the pivot sequence, and every entry of L and U and every pivot is exactly the corresponding minor of the row- and column-permuted matrix, so that P A Q = L D^-1 U in exact integers. In particular the last pivot is the determinant of the permuted matrix.',
 ['inputs','configurations'],'all nonsingular integer matrices, all option settings, all valid symbolic analyses including user-made ones whose size estimates are too small or too large',
 'Tests only look at the final solution of a handful of systems; a wrong, missing or duplicated factor entry can be invisible there, and factors are never inspected.',
 [S+'SLIP_LU_factorize.c',S+'slip_ref_triangular_solve.c',S+'slip_get_pivot.c',S+'slip_sparse_realloc.c',S+'slip_sparse_collapse.c'],
 [('copy of the kth column into L and U and final row-index permutation',S+'SLIP_LU_factorize.c'),('growth and shrinkage of the factors',S+'slip_sparse_realloc.c, '+S+'slip_sparse_collapse.c')],['SLIP_LU_factorize'])
p('S04','Each pivoting scheme picks the pivot it documents',
 'At every elimination step the chosen pivot is a nonzero candidate in a not-yet-used row that obeys the requested rule: least magnitude, greatest magnitude, the diagonal when nonzero (else least magnitude), any nonzero, or the diagonal exactly when its magnitude ratio to the least or greatest candidate meets the tolerance. The rule depends on magnitudes only, never on signs.',
 ['inputs','configurations'],'all integer matrices, six schemes, all tolerances in (0,1]',
 'Every choice of a nonzero pivot yields the same final solution, so no test that looks at answers can see a wrong pivot choice, which silently destroys the promised sparsity and size behaviour.',
 [S+'slip_get_pivot.c',S+'slip_get_smallest_pivot.c',S+'slip_get_largest_pivot.c',S+'slip_get_nonzero_pivot.c'],
 [('pivot selection and tolerance comparison',S+'slip_get_pivot.c')],['SLIP_LU_factorize'])
p('S05','Symbolic analysis yields a usable ordering or an error',
 'For every valid square sparse matrix and ordering choice, analysis succeeds with a column ordering that is a permutation of the columns and with size estimates that are at least the dimension and that factorization can use as they are. It depends on the nonzero pattern only, no ordering leaves the columns in place, and whatever goes wrong inside the ordering code is reported as an error instead of an uninitialised ordering.',
 ['inputs','configurations','fault_sequences'],'all nonzero patterns, all three orderings, all value types, allocation failures and malformed patterns',
 'The suite analyses a few small patterns with every allocation succeeding in the ordering code and never inspects the ordering.',
 [S+'SLIP_LU_analyze.c',S+'SLIP_LU_analysis_free.c'],[('dispatch to the ordering codes and estimate clamping',S+'SLIP_LU_analyze.c')],['SLIP_LU_analyze'])
p('S06','Solutions in double or MPFR are the exact solution, rounded once',
 'When the one-call solver is asked for multiprecision floating-point output, every entry equals the exact rational solution rounded once to the requested precision in the requested rounding mode; when asked for doubles, every entry is one of the two doubles that bracket the exact solution, and exact when representable. Any other output type is refused without producing a result.',
 ['inputs','configurations'],'all systems, precisions, rounding modes and output types',
 'The suite prints or ignores rounded results; double rounding, wrong precision or mode, and scale factors applied after rounding are not observable in it.',
 [S+'SLIP_backslash.c',S+'SLIP_matrix_copy.c',S+'slip_cast_array.c',S+'slip_create_mpfr_array.c'],[('final typed copy of the rational solution',S+'SLIP_backslash.c')],['SLIP_backslash'])
p('S07','Copying between any two kinds and types preserves the matrix',
 'Copying any valid matrix (shallow or not, in any of the 15 kind/type forms) to any of the 15 forms gives a valid, fully owned matrix of the requested form with the same dimensions, every entry in the same position, and the same value whenever the target type can hold it, the scale factor included; NaN and infinities are outside the guarantee. Copies to rational form and from integer or rational data are always exact, and the source is unchanged.',
 ['inputs','configurations'],'all 225 source/target combinations, all shapes including empty ones, all entry patterns, all values, all scale factors',
 'Only the source/target pairs on the path to one solve are executed by the suite, with positive single-digit values, full-rank square shapes and unit scales, and the copy itself is never compared with the original.',
 [S+'SLIP_matrix_copy.c',S+'slip_cast_matrix.c',S+'slip_cast_array.c',S+'slip_cumsum.c',S+'slip_expand_mpq_array.c'],
 [('kind conversion',S+'SLIP_matrix_copy.c'),('type conversion with scale factors',S+'slip_cast_array.c')],['SLIP_matrix_copy'])
p('S08','Float-to-integer conversion keeps every value via the scale factor',
 'Converting double or multiprecision floating-point data to integers yields integers and a nonzero scale factor whose quotient is the data multiplied by ten to the 17th (double) or two to the requested precision (multiprecision) and rounded to an integer in the requested precision and rounding mode, so data that such a scaling makes integral comes back exactly and all-zero data gives zeros with scale one. A zero entry stays zero, the sign is kept, and no common factor of the nonzero entries is left.',
 ['inputs','configurations'],'all finite double and multiprecision data, precisions and rounding modes',
 'One list of values is converted in the tests and only solves are checked; zero vectors, leading zeros, common factors, negative values and extreme exponents are not covered.',
 [S+'slip_expand_double_array.c',S+'slip_expand_mpfr_array.c',S+'slip_cast_array.c'],[('scaling, rounding and gcd reduction',S+'slip_expand_double_array.c, '+S+'slip_expand_mpfr_array.c')],['SLIP_matrix_copy'])
p('S09','Conversion to 64-bit integers truncates toward zero and saturates',
 'Converting any floating-point, multiprecision or rational value to a 64-bit integer gives the value rounded to an integer as documented for its type (toward zero from doubles and rationals, in the selected rounding mode from multiprecision floats); values beyond the range give the nearest representable extreme and not-a-number gives zero.',
 ['inputs'],'all doubles including the boundaries 2^63 and -2^63, infinities and NaN; rationals, scaled integers and multiprecision floats around the same boundaries',
 'The only conversion to 64-bit integers in the suite uses single-digit integers.',
 [S+'slip_cast_array.c',S+'slip_internal.h'],[('saturating cast',S+'slip_internal.h')],['SLIP_matrix_copy'])
p('S10','The matrix checker accepts exactly the valid matrices',
 'The checker reports success for a matrix if and only if it is well formed: dimensions and counts nonnegative and consistent with the allocated size, column pointers starting at zero and nondecreasing, all indices in range, no duplicate entry, required arrays present, known kind and type. It never reads outside the arrays the matrix owns, never modifies the matrix, and its verdict does not depend on the print level.',
 ['inputs','configurations'],'all matrices of all kinds and types with every single and double corruption of their fields',
 'The suite checks valid matrices and about a dozen hand-made corruptions.',
 [S+'SLIP_matrix_check.c',S+'SLIP_matrix_nnz.c'],[('field, pointer, range and duplicate checks',S+'SLIP_matrix_check.c')],['SLIP_matrix_check'])
p('S11','Allocation, counting and freeing of matrices obey their contract',
 'Allocating a matrix of any kind, type, shape and capacity, owned or shallow, initialised or not, gives a matrix with the requested fields, scale one, no entries and capacity for the requested number of entries; the entry count always reflects the kind. Freeing releases exactly what the matrix owns, never what it borrows, resets the handle, and is harmless on null or already freed handles.',
 ['inputs','configurations','histories'],'all kinds, types, shapes including empty, capacities, ownership flags, and allocate/share/free orders',
 'The suite allocates a few shapes; ownership mixes and empty shapes are not covered, nor is what is released observed.',
 [S+'SLIP_matrix_allocate.c',S+'SLIP_matrix_free.c',S+'SLIP_matrix_nnz.c',S+'slip_create_mpz_array.c',S+'slip_create_mpq_array.c',S+'slip_create_mpfr_array.c'],
 [('per-component shallow flags',S+'SLIP_matrix_free.c')],['SLIP_matrix_allocate','SLIP_matrix_free','SLIP_matrix_nnz'])
p('S12','Results depend on the arguments only, and inputs are never changed',
 'No call changes any of its inputs, bit for bit. Any interleaving of analyses, factorizations, solves, copies and checks on several matrices in one session, including repeated solves with one factorization and calls that fail in between, gives each call the same result as when it is made alone in a fresh session.',
 ['histories','inputs'],'all call sequences up to a bound over several live matrices and factorizations',
 'Every test makes one pass over one system in a fixed order and never compares inputs before and after.',
 [S+'SLIP_LU_analyze.c',S+'SLIP_LU_factorize.c',S+'SLIP_LU_solve.c',S+'slip_ref_triangular_solve.c',S+'slip_reach.c',S+'slip_dfs.c',S+'SLIP_matrix_copy.c'],
 [('column-pointer marks of the depth-first search are restored',S+'slip_reach.c'),('per-call workspaces; global wrapper state reset at each call',S+'SLIP_gmp.h')],['all public calls'])
p('S13','Any failed allocation is survived without crash, leak or corruption',
 'If any one allocation, any allocation and all later ones, or any two allocations made on behalf of a call fail, the call returns normally, no memory is leaked, freed twice, or used after being freed, no input is changed, and the library stays usable: repeating the call with memory available gives the normal result.',
 ['fault_sequences','histories'],'every failing allocation point, persistent failures and pairs of failures, of every public operation',
 'The brutal test walks single failures of one pipeline on one 4-by-4 system, skips failures inside the ordering codes and the pointer-list code, and checks neither leaks nor contents.',
 [S+'SLIP_gmp.c',S+'SLIP_gmp.h',S+'SLIP_LU_factorize.c',S+'SLIP_LU_solve.c',S+'SLIP_matrix_copy.c',S+'slip_expand_double_array.c',S+'slip_expand_mpfr_array.c',S+'slip_expand_mpq_array.c',S+'slip_sparse_realloc.c',S+'SLIP_LU_analyze.c',S+'SLIP_backslash.c'],
 [('longjmp out of the bignum library with a list of blocks to release',S+'SLIP_gmp.c'),('free-all on error',S+'slip_internal.h')],['all public calls'],
 [('list of blocks allocated by the current bignum call','must be released exactly once on failure',S+'SLIP_gmp.c')])
p('S14','A failed allocation is reported as out of memory, all or nothing',
 'A call during which an allocation fails either delivers the complete normal result and success, or reports out of memory and delivers no result object at all; it never reports another error, and never success with an incomplete or wrong result.',
 ['fault_sequences'],'every failing allocation point, persistent failures and pairs of failures, of every public operation',
 'The brutal test only checks that the final run passes; the status and outputs of the failing runs are ignored.',
 [S+'SLIP_matrix_allocate.c',S+'SLIP_matrix_copy.c',S+'SLIP_LU_analyze.c',S+'SLIP_LU_factorize.c',S+'SLIP_LU_solve.c',S+'SLIP_backslash.c',S+'SLIP_matrix_check.c',S+'slip_expand_double_array.c',S+'slip_expand_mpfr_array.c'],
 [('status checks on every internal call',S+'slip_internal.h')],['all public calls'])
p('S15','The session state machine is enforced on every call',
 'Outside a session every call other than the GMP and MPFR wrappers does nothing except report misuse (or return null, minus one or the unchanged block, for calls without a status), and a session cannot be opened twice or closed twice. Any sequence of opening (plain or with custom allocators), using and closing sessions works, and after each close no memory obtained by the library is outstanding once the user has freed the objects he was given.',
 ['histories'],'all sequences of session calls and every other public call up to a bound',
 'The suite opens one session per process and probes a few calls outside it.',
 [S+'SLIP_initialize.c',S+'SLIP_initialize_expert.c',S+'SLIP_finalize.c',S+'SLIP_malloc.c',S+'SLIP_calloc.c',S+'SLIP_realloc.c',S+'SLIP_free.c'],
 [('initialised flag checked first in each function',S+'*.c')],['all public calls'],[('session flag','open or closed',S+'SLIP_initialize.c')])
p('S16','Invalid arguments are refused cleanly',
 'Every call given a null pointer, a wrong matrix kind or type, mismatched or non-square dimensions, or an out-of-range matrix kind or type returns the incorrect-input status, leaves the outputs null or untouched, changes no input and leaks nothing.',
 ['inputs'],'every argument position of every public call crossed with every class of invalid value, singly and in pairs',
 'The suite tries about twenty bad calls, one bad argument each.',
 [S+'SLIP_LU_analyze.c',S+'SLIP_LU_factorize.c',S+'SLIP_LU_solve.c',S+'SLIP_backslash.c',S+'SLIP_matrix_copy.c',S+'SLIP_matrix_allocate.c',S+'slip_internal.h'],
 [('kind/type requirement macros and argument tests at function entry',S+'slip_internal.h')],['all public calls'])
p('S17','Memory wrappers behave as documented for every size and failure',
 'The allocation wrappers treat zero sizes as one, return null instead of a short block when the requested size overflows, clear memory where promised, keep the old block and contents when growth fails, succeed whenever a block shrinks or keeps its size, and route every request to the configured allocator functions.',
 ['inputs','fault_sequences'],'all item counts and item sizes including products that overflow, all allocator answers',
 'The suite never requests overflowing sizes and never compares contents across a failed or shrinking reallocation.',
 ['SuiteSparse_config/SuiteSparse_config.c',S+'SLIP_malloc.c',S+'SLIP_calloc.c',S+'SLIP_realloc.c',S+'SLIP_free.c'],
 [('size-overflow test and shrink rule','SuiteSparse_config/SuiteSparse_config.c')],['SLIP_malloc','SLIP_calloc','SLIP_realloc','SuiteSparse_malloc','SuiteSparse_calloc','SuiteSparse_realloc','SuiteSparse_free'])
p('S18','Every bignum wrapper computes what the wrapped function computes',
 'Each wrapper of a GMP or MPFR function delivers exactly the result of the function it wraps, for every operand sign, size and aliasing of operands and for every rounding mode, and returns success; values of its other operands are unchanged.',
 ['inputs'],'all wrappers, operands from one to many machine words, all aliasing patterns and rounding modes',
 'Several wrappers are executed by no test, and none with multi-word, negative or aliased operands compared with a reference.',
 [S+'SLIP_gmp.c',S+'SLIP_gmp.h'],[('one wrapper per library function',S+'SLIP_gmp.c')],['SLIP_mpz_*','SLIP_mpq_*','SLIP_mpfr_*','SLIP_gmp_fscanf'])
p('S19','Bignum wrappers are failure-atomic toward memory',
 'If any allocation made inside a GMP or MPFR wrapper fails, the wrapper returns out of memory, every block it obtained is released exactly once, its operands can still be cleared safely, and later wrapper calls work normally.',
 ['fault_sequences','inputs'],'every failing allocation point of every wrapper, for operands that need reallocation and temporaries, after any previous failure',
 'The brutal test reaches only the wrapper calls of one small pipeline and observes neither leaks nor later calls.',
 [S+'SLIP_gmp.c',S+'SLIP_gmp.h'],[('archive of the operand being modified and list of blocks',S+'SLIP_gmp.h')],['SLIP_mpz_*','SLIP_mpq_*','SLIP_mpfr_*'])
p('S20','Options only do what they say',
 'Default options equal a null option pointer in every call; the print level and the solution check never change a result or status; nothing is printed at print level zero, and everything printed goes through the configurable print function, which may be absent.',
 ['configurations','inputs'],'all print levels, check settings and null or default options crossed with all public calls and outcomes',
 'The suite discards output and never compares results across option settings.',
 [S+'SLIP_create_default_options.c',S+'slip_internal.h',S+'SLIP_matrix_check.c',S+'SLIP_LU_analyze.c',S+'slip_check_solution.c'],
 [('default-option macros and print macros',S+'slip_internal.h')],['all public calls'])
p('S21','The built-in solution check accepts exactly the true solutions',
 'With the solution check enabled, a solve is reported as incorrect if and only if the computed vector does not satisfy the system; in particular factors, pivots or permutations that were damaged after factorization are reported and yield no solution, and a correct solution is never rejected.',
 ['inputs','fault_sequences'],'all small systems and all single-entry alterations of factors, pivots and permutation handed to the solve',
 'The check always passes in the tests, so nothing shows that it can fail.',
 [S+'slip_check_solution.c',S+'SLIP_LU_solve.c'],[('exact residual A x - b',S+'slip_check_solution.c')],['SLIP_LU_solve'])
# ------------------------------------------------------------------ AMD
p('A01','AMD returns a permutation for every symmetric or unsymmetric pattern',
 'For every valid square pattern, including unsorted columns and duplicate entries, and every setting of the dense-row and aggressive-absorption controls, the ordering call succeeds and returns a permutation of 0..n-1; unsorted or duplicated input is reported as such, and all its presentations are ordered alike. The lower-level interface that takes the graph in its own workspace returns a permutation and its inverse, the same for every workspace from the documented minimum up and whatever the unused parts of it hold.',
 ['inputs','configurations'],'all n-by-n patterns, all presentation orders of their entries, all control settings',
 'The demos order six fixed matrices and compare the printed output.',
 ['AMD/Source/amd_order.c','AMD/Source/amd_1.c','AMD/Source/amd_2.c','AMD/Source/amd_aat.c','AMD/Source/amd_postorder.c','AMD/Source/amd_post_tree.c','AMD/Source/amd_preprocess.c'],
 [('quotient-graph elimination','AMD/Source/amd_2.c')],['amd_order','amd_l_order','amd_2','amd_l2'])
p('A02','AMD accepts exactly the valid inputs and classifies the rest',
 'The validity check and the ordering call classify every input as valid and sorted, valid but unsorted or duplicated, or invalid (null arrays, negative dimension, bad column pointers, row index out of range), for every such defect at every position, and an invalid input produces no access outside the arrays and no result.',
 ['inputs'],'all small patterns with every single defect at every position',
 'The demos try three defective inputs.',
 ['AMD/Source/amd_valid.c','AMD/Source/amd_order.c'],[('pattern validation','AMD/Source/amd_valid.c')],['amd_valid','amd_order'])
p('A03','AMD statistics describe the input and the ordering truthfully',
 'After a successful ordering the reported dimension, entry count, diagonal count, off-diagonal count of A+A^T, pattern symmetry and number of dense rows are exact (duplicates counted once), and the reported factor nonzeros, operation counts and largest column are upper bounds of the true values for the returned ordering, and equal to them where nothing is estimated (isolated nodes, a full pattern, full dense rows with nothing between the others).',
 ['inputs','configurations'],'all n-by-n patterns and control settings',
 'The demos print statistics of six matrices; a statistic that is wrong only for other symmetry or density patterns goes unseen.',
 ['AMD/Source/amd_aat.c','AMD/Source/amd_2.c','AMD/Source/amd_order.c'],[('symmetry counting','AMD/Source/amd_aat.c'),('fill and flop accounting','AMD/Source/amd_2.c')],['Info'])
p('A04','AMD creates no fill where none is needed',
 'For every pattern whose undirected graph is a forest or a disjoint union of cliques the ordering causes no fill-in, and for every cycle the least possible; and the rows that the documented threshold declares dense are ordered last.',
 ['inputs'],'all forests and cliques up to a bound, dense-row patterns',
 'Fill quality is visible in the demos for a handful of matrices only.',
 ['AMD/Source/amd_2.c','AMD/Source/amd_postorder.c'],[('approximate minimum degree selection','AMD/Source/amd_2.c')],['amd_order'])
p('A05','AMD preprocessing yields the sorted, duplicate-free transpose',
 'For every valid pattern the preprocessing call returns the pattern of the transpose with each column sorted and free of duplicates, and leaves its input unchanged.',
 ['inputs'],'all square patterns with all duplicates and presentation orders up to a bound',
 'No test inspects the preprocessed pattern.',
 ['AMD/Source/amd_preprocess.c'],[('bucket transpose with duplicate removal','AMD/Source/amd_preprocess.c')],['amd_preprocess','amd_l_preprocess'])
p('A06','AMD survives every allocation failure and never alters its input',
 'If any allocation during an ordering or preprocessing call fails, the call reports out of memory, releases everything it obtained and leaves the input unchanged; a later call succeeds. Successful calls also release everything and leave the input and controls unchanged.',
 ['fault_sequences','inputs'],'every failing allocation point on all input classes',
 'No test lets an allocation fail inside the ordering code.',
 ['AMD/Source/amd_order.c','AMD/Source/amd_preprocess.c'],[('release of workspaces on each error path','AMD/Source/amd_order.c')],['amd_order','amd_l_order'])
p('A07','The int and long AMD and COLAMD interfaces agree',
 'For every input that both interfaces can represent, the 32-bit and the 64-bit versions of every ordering call return the same status, the same permutation and the same statistics.',
 ['inputs'],'all small patterns, valid and defective, and control settings',
 'The demos run each version on its own example and nothing compares the two.',
 ['AMD/Include/amd_internal.h','COLAMD/Source/colamd.c'],[('one source compiled twice','AMD/Include/amd_internal.h')],['amd_order','amd_l_order','colamd','colamd_l','symamd','symamd_l'])
p('A08','The Fortran AMD routines order every symmetric pattern',
 'For every symmetric pattern given in the documented workspace form, both Fortran ordering routines return a permutation and its inverse, the same for every workspace size from the documented minimum up and whatever the unused parts of it hold, and the documented outputs (assembly tree, element degrees, required workspace, number of compressions) are correct; on forests they cause no fill-in.',
 ['inputs'],'all symmetric patterns up to a bound, all workspace sizes from the minimum up',
 'The Fortran demos order two fixed matrices with one workspace size.',
 ['AMD/Source/amd.f','AMD/Source/amdbar.f'],[('quotient-graph elimination in Fortran','AMD/Source/amd.f')],['amd_','amdbar_'])
# ------------------------------------------------------------------ COLAMD
p('C01','COLAMD returns a column permutation for every valid matrix',
 'For every valid rectangular pattern, including unsorted or duplicate row indices, empty and dense rows and columns, every setting of the knobs and every workspace size from the minimum up, the ordering call succeeds and returns a permutation of the columns, which does not depend on the order or multiplicity in which entries are presented, on the workspace size, or on what the unused workspace holds.',
 ['inputs','configurations'],'all m-by-n patterns, all presentations, all knobs, all sufficient workspace sizes',
 'The two demos order one 5-by-4 and one 5-by-5 matrix.',
 ['COLAMD/Source/colamd.c'],[('column elimination ordering with garbage collection','COLAMD/Source/colamd.c')],['colamd','colamd_l'])
p('C02','SYMAMD returns a symmetric permutation and uses the lower part only',
 'For every valid square pattern and knob setting the symmetric ordering call succeeds, returns a permutation, leaves its input unchanged, depends only on the strictly lower triangular part without repetitions (whatever entries there are on or above the diagonal), and obtains and releases memory only through the supplied functions, reporting out of memory when they fail.',
 ['inputs','configurations','fault_sequences'],'all symmetric patterns and presentations up to a bound, all knobs, all allocator failures',
 'The demos order one 5-by-5 matrix.',
 ['COLAMD/Source/colamd.c'],[('construction of a matrix M with M^T M matching the graph','COLAMD/Source/colamd.c')],['symamd','symamd_l'])
p('C03','COLAMD and SYMAMD diagnose every defective input',
 'Every null argument, negative dimension or count, nonzero first pointer, short workspace, decreasing pointer and out-of-range row index, at every position, is refused with the documented status code and the documented detail values; unsorted or duplicate entries are accepted with the documented warning and exact details; nothing outside the arrays is accessed.',
 ['inputs'],'all small patterns with every single defect at every position',
 'The demos contain no defective input.',
 ['COLAMD/Source/colamd.c'],[('argument checks and row-form construction','COLAMD/Source/colamd.c')],['colamd','symamd','stats'])
p('C04','The recommended COLAMD workspace is always enough and never overflows',
 'For all nonnegative sizes the recommended workspace is at least the minimum the ordering call accepts, and zero when a size is negative or the result would overflow; with the recommended or the minimum size the ordering succeeds for every matrix with those sizes.',
 ['inputs'],'all size triples including those around integer overflow',
 'The demos call it with one small size.',
 ['COLAMD/Source/colamd.c'],[('overflow-checked additions','COLAMD/Source/colamd.c')],['colamd_recommended','colamd_l_recommended'])
p('C05','COLAMD statistics and dense-row handling are truthful',
 'The reported numbers of dense or empty rows and columns that were ignored equal those that the documented thresholds imply, and such columns are placed last, the empty ones behind all others and in their original order; for the symmetric ordering likewise.',
 ['inputs','configurations'],'all small patterns and all knob settings',
 'The demos print statistics of two matrices without dense rows or columns.',
 ['COLAMD/Source/colamd.c'],[('removal of dense and empty rows and columns','COLAMD/Source/colamd.c')],['stats'])
p('C06','COLAMD and SYMAMD create no fill where none is needed',
 'When the columns (for the symmetric ordering: the rows and columns) are coupled as in a forest without repeated couplings, or form disjoint groups in which all are coupled, the ordering causes no fill-in in the factor of A\'A (of A).',
 ['inputs','configurations'],'all forests and all set partitions up to a bound, every presentation of them as rows',
 'Fill quality is visible in the demos for two tiny matrices only.',
 ['COLAMD/Source/colamd.c'],[('score computation and selection of the column of least score','COLAMD/Source/colamd.c')],['colamd','symamd'])
# ------------------------------------------------------------------ config, demos
p('G01','Numeric helpers avoid spurious overflow and match exact arithmetic',
 'The hypotenuse helper is symmetric in its arguments and their signs, exact on the axes, infinite when an argument is, and within a few units in the last place of the true value whenever that is representable, also when a square would overflow or underflow. Complex division is accurate (measured by the norm of the result) for operands of moderate exponents, may write over its operands, and reports exactly a zero divisor.',
 ['inputs'],'all pairs and quadruples over a grid of the double range',
 'No test calls the helpers.',
 ['SuiteSparse_config/SuiteSparse_config.c'],[('scaled formulas','SuiteSparse_config/SuiteSparse_config.c')],['SuiteSparse_hypot','SuiteSparse_divcomplex'])
p('G02','The shared configuration is honoured by every library',
 'All the libraries obtain and release memory only through the memory manager in force (the one last set through SuiteSparse_config, SuiteSparse_start or SLIP_initialize_expert), and print only through the print function installed, or not at all when there is none. SuiteSparse_start restores the defaults; no other ordering, reporting or solving call changes the configuration. Symamd allocates only through the functions it is given, colamd allocates nothing. The timer gives the elapsed monotonic time to a nanosecond. Default parameters and the version are the documented ones.',
 ['histories','inputs','configurations'],'all histories of configuration, ordering, reporting and solving calls to a depth; all pairs of clock readings from a grid',
 'The suite never installs a print function or exchanges the manager and compares what is called afterwards; a time across a second boundary depends on the moment.',
 ['SuiteSparse_config/SuiteSparse_config.c','AMD/Source/amd_order.c','COLAMD/Source/colamd.c','SLIP_LU/Source/SLIP_initialize_expert.c'],[('function pointers of the configuration','SuiteSparse_config/SuiteSparse_config.c'),('wrapped allocation in the ordering codes','AMD/Source/amd_order.c')],['SuiteSparse_config','SuiteSparse_start','SuiteSparse_tic','SuiteSparse_toc','amd_defaults','colamd_set_defaults','SLIP_initialize_expert'])
p('R01','Reports of the ordering codes state the facts',
 'For every control array, information array and statistics array, the report functions of AMD, COLAMD and SYMAMD (32-bit and 64-bit) say what was used and what happened: the control settings in force, the status, the dimensions and counts of the matrix at full width, and, for an error or a jumbled matrix, the kind and the position of the defect. A missing array gives a report or silence, never a crash.',
 ['inputs','configurations'],'all statuses and values of the arrays, including values beyond 32 bits',
 'The demos print one report each and compare nothing but a fixed transcript; other statuses and large counts never occur.',
 ['AMD/Source/amd_info.c','AMD/Source/amd_control.c','COLAMD/Source/colamd.c'],[('report printers','AMD/Source/amd_info.c, AMD/Source/amd_control.c, print_report in COLAMD/Source/colamd.c')],['amd_info','amd_control','colamd_report','symamd_report'])
p('R02','Printing a matrix shows exactly its entries',
 'Checking a valid matrix with a print level above zero prints its kind, type and size, its scale factor when that is not one, and every entry with its position and exact (or round-trip) value, up to the documented limit of about thirty lines at level 2 and without limit at level 3; at level 0 nothing is printed. Printing changes neither the matrix nor the verdict.',
 ['inputs','configurations'],'all forms, shapes, values and print levels',
 'The suite prints but never reads what is printed.',
 ['SLIP_LU/Source/SLIP_matrix_check.c'],[('printing per type and kind','SLIP_LU/Source/SLIP_matrix_check.c')],['SLIP_matrix_check'])
p('D01','The file readers load a well-formed file exactly or report an error',
 'For every well-formed triplet file, in integer and in double form, and every dense right-hand-side file, the readers used by the demo program produce exactly the matrix in the file (doubles as the library converts them). A file that ends early, has entries out of range or given twice, has text where a number belongs, or inconsistent counts gives an error and no matrix. Nothing leaks, also when memory is refused.',
 ['inputs','fault_sequences'],'all small well-formed files, every truncation of them, every damaged token, every allocation failure',
 'The suite reads three fixed files.',
 ['SLIP_LU/Demo/demos.c'],[('file readers','SLIP_LU/Demo/demos.c')],['SLIP_tripread','SLIP_tripread_double','SLIP_read_dense'])
p('D02','The demo command line accepts exactly the documented arguments',
 'For every argument list, the command-line parser of the demo program either sets exactly the documented options (help, check, pivot scheme, column ordering, tolerance, print level, file names) to the values given and leaves the rest as they were, or refuses an unknown argument, a missing value or a negative tolerance. The options it accepts are always legal, and it never reads past the argument list.',
 ['inputs'],'all argument lists over the documented words, with missing, unknown and malformed values',
 'The suite runs five fixed command lines.',
 ['SLIP_LU/Demo/demos.c','SLIP_LU/Demo/SLIPLU.c'],[('option parser','SLIP_process_command_line in SLIP_LU/Demo/demos.c')],['SLIP_process_command_line'])
p('D03','The demo program solves every pair of files or reports an error',
 'For every pair of matrix and right-hand-side files, pivoting scheme and ordering, the demo program reports success exactly when the files are well formed, fit each other and hold a nonsingular matrix, with a plausible size of the factors, and otherwise reports an error. In every case, also when memory is refused at any point, it ends without crash and without leak.',
 ['inputs','configurations','fault_sequences'],'all small systems, all pivoting schemes and orderings, defective files, all allocation-failure points',
 'The suite runs the program on fixed valid systems and ignores what it prints.',
 ['SLIP_LU/Demo/SLIPLU.c','SLIP_LU/Demo/demos.c'],[('main program','SLIP_LU/Demo/SLIPLU.c')],['main of SLIP_LU/Demo/SLIPLU.c'])
p('M01','The MATLAB interface returns the exact solution in the requested form',
 'For every real sparse matrix and full right-hand side with finite entries (read to the documented seventeen decimals), the MATLAB gateway returns the solution of the system posed: as strings holding the exact rational entries, or as doubles that bracket it, as the options ask; a singular matrix raises an error. Every illegal argument (wrong class, shape, number, NaN or Inf, unknown option value, tolerance outside (0,1]) raises an error, calls after an error behave as if it had not happened, nothing is printed unless asked for and then only in the MATLAB window, and a call that succeeds keeps no memory but its result.',
 ['inputs','configurations','histories'],'all small systems, all options, all histories of good and bad calls',
 'The tests cannot run the interface: it needs MATLAB.',
 ['SLIP_LU/MATLAB/SLIP_mex_soln.c','SLIP_LU/MATLAB/Source'],[('mex gateway','SLIP_LU/MATLAB/SLIP_mex_soln.c, SLIP_LU/MATLAB/Source')],['mexFunction of SLIP_LU/MATLAB/SLIP_mex_soln.c'])
p('M02','The MATLAB ordering gateways return what the ordering codes compute',
 'The MATLAB gateways of AMD, COLAMD and SYMAMD return, for a sparse or full matrix and every setting of the knobs, exactly the permutation (counted from one) and the statistics that the library computes for that matrix, never change their input, print only when asked to, and raise an error for a matrix that is not square (AMD, SYMAMD) or that the library refuses, or a wrong number of arguments.',
 ['inputs','configurations'],'all patterns up to a size, all knobs, numbers of arguments and results',
 'The tests cannot run the gateways: they need MATLAB.',
 ['AMD/MATLAB/amd_mex.c','COLAMD/MATLAB/colamdmex.c','COLAMD/MATLAB/symamdmex.c'],[('mex gateways','AMD/MATLAB/amd_mex.c, COLAMD/MATLAB/colamdmex.c, COLAMD/MATLAB/symamdmex.c')],['mexFunction of amd_mex.c','mexFunction of colamdmex.c','mexFunction of symamdmex.c'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
