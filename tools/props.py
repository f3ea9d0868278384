TRUST = (' Trusts the clang 18 front end, LLVM sroa/simplifycfg and sa/*.py; reads only the source in /repo.')

prop('V01', 'An infeasible / unbounded verdict is never dropped or downgraded',
     'If any reduction applied during presolve establishes that the problem is infeasible (or infeasible or unbounded), '
     'that presolve call reports INFEASIBLE (or UNBNDORINFEAS): the verdict is never dropped, overwritten by a later '
     'reduction, or turned into UNCHANGED or REDUCED. Every call ends in exactly one of the documented status values.',
     ['inputs', 'configurations'],
     'every place where a reduction may find infeasibility or unboundedness, every path from there to the return of the '
     'presolve call, every combination of settings',
     'The tests hit a handful of the ~60 places where a verdict can arise, each with one settings combination; a verdict '
     'lost on another path shows up only for a specific infeasible LP.',
     ['src/core/Presolver.c', 'src/explorers', 'src/core/CoreTransformation.c'],
     [('status propagation in the main loop', 'src/core/Presolver.c:run_presolver'),
      ('bound updates that detect infeasibility', 'src/core/CoreTransformation.c:update_lb/update_ub/fix_col'),
      ('verdicts of the individual reductions', 'src/explorers/*.c')],
     technique='interprocedural path-sensitive return-status dataflow (known bits) over LLVM IR',
     note='Per call site of a status-returning function and per verdict in its computed return set: all paths to the '
          'return must carry the verdict. Assumes fixing a variable at its own bound cannot be infeasible.' + TRUST)

prop('A02', 'Every setting gates exactly its own reduction; initialisers set every one',
     'A reduction whose switch is off is never executed, for every problem and every value of the other settings; switching '
     'exactly one reduction on runs that reduction and no other optional one. default_settings initialises every setting, '
     'set_settings_true/false set every boolean setting to true/false, and presolving never changes a settings object.',
     ['configurations', 'inputs'],
     'all 2^9 switch combinations, every path of the presolve driver',
     'The tests use a few fixed combinations; a reduction that also runs under a foreign switch still gives correct-looking '
     'results on small problems.',
     ['src/core/Presolver.c', 'include/PSLP/PSLP_API.h'],
     [('driver phases', 'src/core/Presolver.c:run_presolver, run_trivial_explorers, run_fast_explorers, run_medium_explorers'),
      ('initialisers', 'src/core/Presolver.c:default_settings, set_settings_true, set_settings_false')],
     technique='conditional constant propagation + reachability under each switch assignment; must-store analysis',
     note='Flag-by-flag reachability (each flag off / each flag alone on / cross), writes to settings objects, forwarding of '
          'the scalar settings.' + TRUST)

prop('A03', 'With verbose off the library writes nothing',
     'With the verbose setting false, no API call that returns writes to standard output, standard error or any file, for any '
     'problem, any outcome (including infeasible and time-limit) and any other setting.',
     ['inputs', 'configurations'],
     'all paths of all API functions under verbose == false',
     'The tests do not look at the output at all.',
     ['src/core/Presolver.c', 'src/explorers', 'src/core/Postsolver.c'],
     [('messages', 'src/core/Presolver.c:print_start_message, print_end_message, print_infeas_or_unbnd_message, update_termination')],
     technique='effect analysis: output calls reachable under constant propagation of verbose == false',
     note='Every call of an external function in the release build that is not on the list of non-writing ones must be '
          'unreachable under verbose == false, or on a path that never returns (fatal allocation failure).' + TRUST)

prop('T01', 'Presolve honours the time limit and terminates without progress',
     'Once a check of the elapsed time finds the time limit exceeded no further reduction is started, the elapsed time is '
     'checked against the limit at least once per presolve phase, and when phases stop removing non-zeros the presolve loop ends.',
     ['inputs', 'histories'],
     'all paths of the driver loop, every sequence of phases',
     'Time limits and non-progress cycles need specific large problems; the tests never set a limit.',
     ['src/core/Presolver.c'],
     [('termination test', 'src/core/Presolver.c:update_termination'), ('phase selection', 'src/core/Presolver.c:update_complexity')],
     technique='disjunctive abstract interpretation of the driver loop; cycle analysis of the explored state graph',
     note='Decides the loop structure of the driver: bounded work inside one reduction is not claimed.' + TRUST)

prop('R01', 'Independent presolvers share no mutable state',
     'Presolvers working on different problems may be created, run, postsolved and freed concurrently from different threads '
     'and in any interleaving with the same results as in isolation: the library keeps no mutable state outside the objects '
     'it hands out.',
     ['schedules', 'histories'],
     'all interleavings of API calls on distinct presolvers',
     'The test suite runs one presolver at a time in one thread.',
     ['src/explorers/Parallel_rows.c', 'src/explorers/Primal_propagation.c', 'src'],
     [('sort context', 'src/explorers/Parallel_rows.c:sort_rows; src/explorers/Primal_propagation.c:remove_redundant_bounds')],
     technique='static-storage effect analysis over all functions reachable from the API',
     note='Every object with static storage is read-only or thread-local and written before use by the same call; no libc '
          'function with hidden static state is called.' + TRUST)

prop('M01', 'Every block is owned once and freed once over a presolver\'s life',
     'For every call sequence new_presolver, optionally run_presolver, optionally postsolve (once or twice), free_presolver '
     'and every outcome of each call, all memory the library allocated has been freed exactly once when free_presolver '
     'returns, and no freed block, no pointer into a list that growth has moved, and no null or uninitialised pointer is '
     'dereferenced on the way.',
     ['inputs', 'histories', 'configurations'],
     'all call sequences up to two postsolves, all paths through every reduction',
     'Tests free at the end of one path each; list growth, early-infeasible exits and empty reduced problems need large or '
     'special inputs.',
     ['src/core', 'src/explorers', 'include/data_structures'],
     [('ownership', 'src/core/Presolver.c:new_presolver, free_presolver; src/core/Problem.c:free_problem; src/core/Constraints.c:free_constraints'),
      ('list growth', 'include/data_structures/Vec_macros.h')],
     technique='disjunctive, context-sensitive abstract interpretation of pointers and heap objects (points-to + typestate)',
     note='Object per allocation site and call path, status live/freed/moved; both release and debug builds. Element '
          'indices are not bounded (no buffer-overrun claim).' + TRUST)

prop('M02', 'new_presolver survives every failing allocation',
     'If any allocation (or thread creation) inside new_presolver fails, alone or together with all later ones, '
     'new_presolver neither crashes nor returns a partly built object: it returns NULL and leaves nothing allocated. (When only '
     'the helper thread cannot be created, it may instead return a complete object.) default_settings returns NULL likewise.',
     ['faults'],
     'every allocation call of new_presolver x {only this one fails, it and all later ones fail}',
     'No test injects an allocation failure.',
     ['src/core/Presolver.c', 'src/core/State.c', 'src/core/Workspace.c', 'src/core/Matrix.c', 'src/core/Postsolver.c'],
     [('clean-up scope', 'src/core/Presolver.c:presolver_clean_up, new_presolver'),
      ('component constructors', 'src/core/State.c:new_state; src/core/Workspace.c:new_work; src/core/Matrix.c:matrix_alloc')],
     technique='abstract interpretation of the heap with one allocation site failing at a time (exhaustive over sites)',
     note='Enumerates each allocation site in each calling context. Growth of an internal list (realloc) is excluded: it '
          'ends the process by design.' + TRUST)

prop('A01', 'Caller data is only read, within its extent, and never retained',
     'new_presolver and postsolve never write to the arrays passed to them, keep no pointer to them after returning (so the '
     'caller may free or change them at once), and the matrix, side, bound and objective arrays are not read beyond the lengths '
     'nnz, m+1, m and n that the interface documents.',
     ['inputs', 'histories'],
     'all inputs, all sizes m, n, nnz',
     'A one-past-the-end read or a retained pointer is invisible in tests whose arrays outlive the presolver.',
     ['src/core/Presolver.c', 'src/core/Matrix.c', 'src/core/Postsolver.c'],
     [('copying in', 'src/core/Presolver.c:new_presolver, init_thread_func; src/core/Matrix.c:matrix_new_no_extra_space'),
      ('solution in', 'src/core/Postsolver.c:copy_reduced_sol_to_orginal')],
     technique='points-to escape and effect analysis of the caller arrays; symbolic linear bounds on loop counters',
     note='Extents are decided for copies whose length is linear in the sizes and for loop-counter indices; the number of '
          'decided and undecided reads is in the evidence.' + TRUST)

prop('V02', 'The reduced problem handed out is complete and final; the status agrees with it',
     'run_presolver returns UNCHANGED, REDUCED, INFEASIBLE or UNBNDORINFEAS. On the first two the reduced problem is '
     'completely set and equals the internal problem after all reductions and cleaning (sizes, matrix, row pointers, sides, '
     'bounds of every column, costs, offset), the statistics record the original and the reduced sizes, and UNCHANGED is '
     'returned exactly if the numbers of rows, columns and non-zeros are all unchanged. On a verdict no reduced problem is '
     'published.',
     ['inputs', 'configurations'],
     'all paths from new_presolver to every return of run_presolver; every element of every published array',
     'Tests look at a few fields of problems that end in one way; an element or a field that is stale on one path only is not seen.',
     ['src/core/Presolver.c'],
     [('publication', 'src/core/Presolver.c:populate_presolved_problem, run_presolver'), ('status', 'src/core/Presolver.c:final_status')],
     technique='value-flow analysis with access paths, modification sets and scalar evolution of the filling loops',
     note='Every published field is traced to the internal field it must equal, with no later modification; the filling '
          'loops must cover 0..n-1 (0..m for the row pointers).' + TRUST)

prop('S03', 'Postsolve is repeatable and depends only on the vectors it is given',
     'postsolve writes nothing but the solution (and its own timing). Before undoing any reduction it sets every element of the '
     'solution from this call: the surviving columns take x and z and the surviving rows take y from the caller\'s vectors, '
     'each at the original position recorded in the column or row map. It may therefore be called any number of times, with any '
     'vectors, each result depending only on that call\'s vectors; the reduced problem, the statistics and the saved reduction '
     'records stay as run_presolver left them.',
     ['inputs', 'histories'],
     'all sequences of postsolve calls, all vectors, all reduction records',
     'Tests call postsolve once per presolver; a stale element or a consumed record shows only on a second call with other vectors.',
     ['src/core/Postsolver.c', 'src/core/Presolver.c'],
     [('initialisation of the solution', 'src/core/Postsolver.c:copy_reduced_sol_to_orginal'),
      ('undoing', 'src/core/Postsolver.c:postsolver_update'), ('entry', 'src/core/Presolver.c:postsolve')],
     technique='effect analysis with access paths; array-coverage analysis of the initialising loops (scalar evolution)',
     note='All stores of the call are classified by the field they write; index and value of every initialising store are '
          'traced to the maps and the caller\'s vectors, and the loops must cover 0..n-1.' + TRUST)

prop('S01', 'Reductions are recorded completely; postsolve undoes them exactly, last first',
     'Each reduction that removes or changes a row or column appends one complete record to the postsolve history: its type, '
     'the indices and the numbers the undoing of that type reads, in its layout, taken from the row or column concerned as it '
     'was before the reduction changed it; bound changes derived from a row are closed by one record of that row with their exact '
     'number. Postsolve processes all records from the last to the first, and undoes each with the formula of its type: '
     'x[k]=v, z[k]=c-a\'y for a fixed column; x[k]=(b-sum a x)/a_k, z[k]=c-a_k y[i] for a substituted one; y[i]=v for a deleted '
     'row; y[i]+=r y[j] and y[i]-=sum(a_j/a_i)y[j] for added rows; y[i]+=v for an equality turned into an inequality; '
     'y[i]+=z[j]/a_ij, z[k]-=(a_ik/a_ij)z[j], z[j]=0 for an active implied bound; y[j]=r y[i], y[i]=0 for an active transferred '
     'side; for parallel columns x[k]=(x-x_j)/r with x[k], x[j] at or within their recorded bounds and z[k]=r z[j] or 0; the most '
     'extreme of the finite bound and the row values for a column at infinity.',
     ['inputs', 'histories'],
     'all reductions, all paths through them, all record types, all sequences of records',
     'The history matters only when a particular sequence of reductions is undone; a swapped slot, a late read or a wrong number '
     'yields a solution that is wrong only for problems on which that reduction fires with other than zero data.',
     ['src/core/Postsolver.c', 'src/core/CoreTransformation.c', 'include/core/CoreTransformations.h', 'src/explorers/*.c'],
     [('writing', 'src/core/Postsolver.c:save_retrieval_*; callers in src/explorers and src/core/CoreTransformation.c'),
      ('undoing', 'src/core/Postsolver.c:postsolver_run, retrieve_*')],
     technique='protocol (typestate) analysis of the record lists with everything inlined; provenance of every slot; symbolic '
               'summaries of the undoing loop per record type compared with a specification',
     note='Slots whose origin the analysis cannot name are counted as undecided in the evidence. The formulas are compared as '
          'sums of products of record slots and solution elements; tolerances are not part of them. That the specified formulas '
          'are the mathematically right ones is argued in DESIGN.md, not derived by the check.' + TRUST)

prop('B01', 'Bounds and row sides only change to what the rows and the removed columns imply',
     'Every bound of a column and every side of a row that a reduction stores is implied by the problem before it, with the right '
     'direction for either sign of each coefficient: a bound from a singleton row is the row\'s finite side divided by the '
     'coefficient, mirrored for a negative one; from a doubleton equality, (rhs minus coefficient times a finite bound of the other '
     'column) divided by the coefficient, and both finite bounds are passed on; from a longer row, the side minus the activity of '
     'the other columns, taken at their finite bounds, divided by the coefficient; merged parallel columns add up bounds, with the '
     'multiple mirrored when it is negative. When a column leaves a row, or a multiple of an equality is added to it, each finite '
     'side changes by that contribution. No infinite bound, side or activity enters a finite value, an infinity is stored only on '
     'its own side, and a bound of a column is replaced only by a tighter one or where it is infinite or the column is eliminated.',
     ['inputs'],
     'every store to a bound or a side, all signs of the coefficients, all combinations of finite and infinite data',
     'A sign case (negative coefficient, one infinite side, both bounds finite) is reached by the tests only in a few of the many '
     'combinations, and a wrong bound that cuts off solutions which are not optimal is not noticed.',
     ['src/core/CoreTransformation.c', 'src/core/Constraints.c', 'src/explorers/*.c'],
     [('bound transfer', 'src/explorers/DtonsEq.c:modify_bounds; src/explorers/SimpleReductions.c:remove_ston_rows'),
      ('implied bounds', 'src/explorers/Primal_propagation.c'),
      ('parallel columns', 'src/explorers/Parallel_cols.c:process_single_bin'),
      ('sides', 'src/explorers/StonCols.c, SimpleReductions.c:delete_fixed_cols_from_problem, DtonsEq.c:update_lhs_and_rhs'),
      ('bound updates', 'src/core/CoreTransformation.c:update_lb, update_ub, fix_col')],
     technique='abstract interpretation: values as polynomials over problem data, direction (sign) and linear-form certificates '
               'under case splits on signs and tags',
     note='Per store and alternative value: sign of every factor, linear form, finiteness of every datum, tightening test. '
          'Rounding margins up to 1e-5 (relative) are accepted. Values the analysis cannot name are counted as undecided.' + TRUST)

prop('K02', 'Row activities always bound what their row can take',
     'The activities of a row (its minimal and maximal activity, and the counts of columns that contribute infinitely to either) '
     'are valid at all times: they are first computed from every coefficient and the bound that matters for its sign, each infinite '
     'bound counted in the count it belongs to; every change of a column\'s bound, every coefficient that changes or vanishes, every '
     'column that leaves a row and every multiple of a row added to another reaches the activities of the rows it is in, with the '
     'right sign and the old and the new value; a count goes down only for a bound that was infinite, and when it reaches zero the '
     'activity is recomputed from the bounds. Every finite activity stored is therefore a valid lower (minimal) or upper (maximal) '
     'bound of the row over the current bounds, and no infinite bound ever enters one.',
     ['inputs'],
     'every store to an activity or count of infinite contributions, all signs of the coefficients, all combinations of finite and infinite bounds',
     'Redundancy, infeasibility and tightening are concluded from activities that were updated incrementally; a sign or count that '
     'is wrong in one combination shows up only many reductions later, if at all.',
     ['src/core/Activity.c', 'src/core/CoreTransformation.c', 'src/explorers/*.c'],
     [('first activities', 'src/core/Activity.c:new_activities'),
      ('bound changes', 'src/core/Activity.c:update_activities_bound_change, update_activities_fixed_col; CoreTransformation.c:update_lb, update_ub'),
      ('changed coefficients', 'src/core/Activity.c:update_activity_coeff_change; DtonsEq.c'),
      ('recomputation', 'src/core/Activity.c:compute_min_act_no_tags, compute_max_act_no_tags, recompute_n_infs'),
      ('removed bounds', 'src/core/Activity.c:remove_finite_lb_from_activities, remove_finite_ub_from_activities')],
     technique='abstract interpretation: activities as polynomials over bounds and coefficients, sign and linear-form certificates '
               'under case splits; pairing of bound, coefficient and side changes with activity changes along paths',
     note='Per store and alternative value. An update that leaves an activity weaker than it could be (still a valid bound) is '
          'accepted. Values the analysis cannot name are counted as undecided.' + TRUST)

prop('V04', 'Infeasibility and redundancy are concluded only from comparisons that imply them',
     'INFEASIBLE is returned only after a comparison showed a bound or side to contradict a value implied by the rest of the problem (more '
     'than any tolerance in the wrong direction). A finite side of a row or a finite bound of a column is dropped, a row removed as '
     'redundant, and an inequality turned into an equality only after comparisons against valid implied values (from bounds and finite '
     'activities, with the sign of the coefficient) that make it so; a value that may be infinite never serves as the reason.',
     ['inputs'],
     'every INFEASIBLE verdict and every store that drops a side, bound or row or makes an equality; all signs of coefficients, tags, '
     'equality or inequality, counts of infinite contributions',
     'The reasons are comparisons of floating-point expressions that differ by sign, side and tag in dozens of mirrored places; a wrong one '
     'needs its own constellation of signs and infinite bounds to show, and then relaxes the problem or rejects a feasible one.',
     ['src/core/CoreTransformation.c', 'src/explorers/*.c'],
     [('implied bounds', 'src/core/CoreTransformation.c:implied_free_from_above_by_row, implied_free_from_below_by_row'),
      ('infeasible bounds', 'src/core/CoreTransformation.c:fix_col, update_lb, update_ub, change_rhs_of_ineq, change_lhs_of_ineq'),
      ('activities', 'src/explorers/SimpleReductions.c:check_activities, check_activity'),
      ('empty rows', 'src/explorers/SimpleReductions.c:remove_empty_rows'),
      ('parallel rows', 'src/explorers/Parallel_rows.c:process_single_bin'),
      ('redundant bounds', 'src/explorers/Primal_propagation.c:remove_redundant_bounds'),
      ('singleton columns', 'src/explorers/StonCols.c:process_colston_eq, process_colston_ineq')],
     technique='abstract interpretation: comparisons read as facts about bounds and sides (sign and linear-form certificates); a conclusion '
               'must become unreachable when all facts that imply it are assumed false, under case splits over signs and tags',
     note='Per verdict and store. What a dropped row hands over to the bounds of its columns is checked only in that the comparison exists. '
          'Comparisons the analysis cannot read make the conclusion undecided.' + TRUST)

prop('D02', 'Fixings, active sides and unbounded verdicts follow the cost and the locks',
     'A column is fixed at its lower (upper) bound for reasons of optimality only if its cost does not pull away from that bound and no '
     'finite side of any row resists the move (no down- (up-) locks, or the side of its only row that would block is infinite); of two '
     'parallel columns one is fixed only at the bound the comparison of their costs points to, and only if the other one has no bound '
     'in the direction that compensates. A column of zero cost is sent to minus (plus) infinity only if it has no bound there and nothing '
     'resists. An inequality becomes an equality, or a free singleton column is substituted with it, only at the side that the signs of '
     'cost and coefficient make active at an optimal solution. UNBNDORINFEAS is concluded only if such a column, with a cost that '
     'strictly improves, has no bound in that direction. Otherwise columns are fixed only where their bounds meet.',
     ['inputs'],
     'every store that fixes a column or turns an inequality into an equality, every UNBNDORINFEAS verdict; all signs of costs and '
     'coefficients, all combinations of locks, infinite sides and infinite bounds',
     'Each argument has up to a few dozen sign and tag combinations, mirrored by hand in the code; a test reaches a handful, and a wrong '
     'one silently cuts off the optimal solution or calls a solvable problem unbounded.',
     ['src/explorers/Simple_dual_fix.c', 'src/explorers/StonCols.c', 'src/explorers/Parallel_cols.c', 'src/explorers/SimpleReductions.c',
      'src/explorers/Primal_propagation.c'],
     [('dual fixing', 'src/explorers/Simple_dual_fix.c:_simple_dual_fix, simple_dual_fix'),
      ('singleton columns', 'src/explorers/StonCols.c:process_colston_ineq'),
      ('dominated parallel columns', 'src/explorers/Parallel_cols.c:process_single_bin'),
      ('empty columns', 'src/explorers/SimpleReductions.c:remove_empty_cols'),
      ('bounds that meet', 'src/explorers/Primal_propagation.c:update_lb_within_propagation, update_ub_within_propagation')],
     technique='abstract interpretation with exhaustive case distinction over signs of costs and coefficients, tags and locks; '
               'each case in which the store or verdict stays reachable must be one the optimality argument allows',
     note='Per store, alternative value and verdict. That the locks themselves are right and that a free singleton column really is '
          'implied free is not part of this check.' + TRUST)

prop('O01', 'The objective carries over: removed columns leave exactly their cost behind',
     'The objective of the reduced problem plus its offset equals the original objective at every point and its reconstruction. The '
     'offset starts at zero. Removing a column that is fixed adds its cost times the value it is fixed at - the same value that is '
     'recorded for postsolve - to the offset, once, for every sign of cost and value. Substituting a column k with the equality (or '
     'the active side) of row i adds c_k/a_ik times that side and subtracts c_k/a_ik times a_ij from the cost of every other column j '
     'of the row, both with the cost k had before. No other reduction changes the offset or a cost.',
     ['inputs'],
     'every store to a cost or to the objective offset in every reduction, and every record of a fixed or substituted column; all '
     'signs of costs, coefficients and values',
     'Tests compare optimal values on a few problems; a contribution lost for one sign, one row length or one order of the updates '
     'leaves the reduced problem solvable, with another optimum or a wrong offset.',
     ['src/core/Problem.c', 'src/explorers/DtonsEq.c', 'src/explorers/SimpleReductions.c', 'src/explorers/StonCols.c'],
     [('fixing and substituting', 'src/core/Problem.c:fix_var_in_obj, sub_var_in_obj'),
      ('doubleton equalities', 'src/explorers/DtonsEq.c:subst_col_in_obj_dton'),
      ('fixed columns, empty columns', 'src/explorers/SimpleReductions.c:delete_fixed_cols_from_problem, remove_empty_cols'),
      ('singleton columns', 'src/explorers/StonCols.c:fix_col_ston, process_colston_eq, process_colston_ineq')],
     technique='symbolic values of all stores to costs and offset as polynomials over the problem data, matched against the two exact '
               'update forms; path-coverage (must-pass) analysis between reduction records and updates under sign assumptions',
     note='Sums accumulated over several columns before they are stored, and costs updated by another traversal than a counted loop '
          'over the row, are left undecided. Which value or side is right is D02.' + TRUST)

prop('L01', 'Locks count exactly the finite row sides that resist moving a column',
     'For every column the up-lock is the number of finite row sides that can block increasing it (right sides of rows with a positive, '
     'left sides of rows with a negative coefficient) and the down-lock the number that can block decreasing it. The initial count and '
     'the recount of a column whose coefficients changed treat every entry that way, from zero; whenever a side of a row becomes '
     'infinite or finite, or a row is deleted, the lock of exactly the matching direction of every remaining column of the row changes '
     'by one, for coefficients of both signs. Dual fixing relies on a zero lock meaning that nothing blocks the move.',
     ['inputs', 'histories'],
     'every store to a lock and every change of a row between finite and infinite sides, in every reduction and in the set-up; all '
     'signs of coefficients and all combinations of infinite sides',
     'A lock that is wrong for one sign or one kind of row only matters when a later dual-fix round looks at that column; tests that '
     'run the reductions on a few problems do not notice, the reduced problem stays solvable with another optimum.',
     ['src/core/Locks.c', 'src/core/CoreTransformation.c', 'src/explorers/SimpleReductions.c', 'src/explorers/StonCols.c',
      'src/explorers/DtonsEq.c'],
     [('counting and updates', 'src/core/Locks.c'),
      ('sides made finite by parallel rows', 'src/core/CoreTransformation.c:change_rhs_of_ineq, change_lhs_of_ineq'),
      ('redundant sides', 'src/explorers/SimpleReductions.c:check_activities'),
      ('deleted rows', 'src/core/Constraints.c'),
      ('sides dropped or closed by singleton columns', 'src/explorers/StonCols.c'),
      ('recount', 'src/explorers/DtonsEq.c:execute_substitution')],
     technique='sparse conditional constant propagation with sign and tag-bit assumptions over every store to a lock, matched against '
               'the resisting side; must-pass analysis between tag changes and lock updates; reset-before-count by dominance',
     note='Changes whose coefficient is not read in the same loop are left undecided. That a whole row is traversed is checked for '
          'counted loops (start, step) only.' + TRUST)

prop('N01', 'new_presolver takes the problem in exactly as the caller describes it',
     'The problem that is presolved is the one passed to new_presolver: coefficients, column indices, row ranges, sides, bounds and '
     'costs are the elements of the matching caller array, each at its own index and all of them. For every row the left (right) '
     'side is marked infinite exactly if it is -INFINITY (INFINITY) and the row is marked an equality exactly if both sides are the '
     'same number; for every column the lower (upper) bound is marked infinite exactly if it is. The transpose holds every entry '
     'once, value and row together in the column of the entry, and the sizes of rows and columns are the numbers of their entries.',
     ['inputs'],
     'every store and copy that fills the arrays of the problem in new_presolver and its helper thread; all classes of sides and bounds '
     '(infinite, negative, zero, positive, huge)',
     'Tests pass a few problems with the usual kinds of rows; a tag that is wrong for one combination of sides, or a last element that '
     'is not copied, leaves a solvable problem that is not the caller\'s.',
     ['src/core/Presolver.c', 'src/core/Tags.c', 'src/core/Matrix.c'],
     [('copies, bounds and column tags', 'src/core/Presolver.c:new_presolver, init_thread_func'),
      ('row tags', 'src/core/Tags.c:new_rowtags'),
      ('matrix, transpose, sizes', 'src/core/Matrix.c:matrix_new_no_extra_space, transpose, count_rows')],
     technique='points-to of every pointer in new_presolver to caller arguments, allocations and fields of the thread\'s context; element and '
               'loop-bound matching of all stores and copies; constant propagation over every class of sides and bounds for the tags',
     note='That the columns of the transpose start where the previous one ends (the counting pass) is not checked.' + TRUST)

prop('I01', 'Rows, columns and matrix positions are never mixed up',
     'Every per-row datum (sides, row tags, row sizes, activities, row ranges of A, the row map, y) is accessed with a row number, '
     'every per-column datum (bounds, costs, column tags, column sizes, locks, row ranges of the transpose, the column map, x and z) '
     'with a column number, the entries of A with positions taken from A\'s row ranges and those of the transpose with positions taken '
     'from its own; the row lists hold row numbers and the column lists column numbers; loops over rows and columns end at the '
     'number of rows and columns, and arrays are allocated, cleared and copied with the count of their kind. This holds in '
     'new_presolver, in every reduction, in the final compaction of the problem and in postsolve, for every problem.',
     ['inputs', 'histories'],
     'every access to a per-row, per-column or matrix array in the library, over all inputs and all states of presolve',
     'Rows and columns are both plain int; on the small or nearly square problems of the tests a swapped index or count often lands on '
     'a valid entry with the same value.',
     ['src/core', 'src/explorers'],
     [('matrix and transpose', 'src/core/Matrix.c'), ('compaction', 'src/core/Constraints.c:constraints_clean; src/core/State.c:clean_state; '
       'src/core/Problem.c:problem_clean'), ('reductions', 'src/explorers/*.c'), ('postsolve maps', 'src/core/Postsolver.c')],
     technique='type inference for index kinds (unification over SSA values, with access paths naming the arrays) on the inlined library',
     note='Scratch arrays, the reduction records and values no typed array constrains are not typed; a counter compared with both '
          'sizes may serve both kinds.' + TRUST)

prop('X01', 'The postsolved point is optimal to the accuracy of the reduced solution',
     'If the vectors passed to postsolve solve the reduced problem to a given accuracy, the reconstructed primal and dual vectors '
     'satisfy the optimality conditions of the original problem to a comparable accuracy, and the optimal values agree.',
     ['inputs'], 'all problems, all solutions of the reduced problem',
     'Tests compare a handful of problems.', ['src/core/Postsolver.c', 'src/explorers'],
     [('undoing', 'src/core/Postsolver.c')],
     na='A statement about magnitudes of runtime reals: growth of rounding errors through ratios of coefficients and the choice of '
        'tolerances depend on the data of the problem, which no sound static argument in reach bounds. Its discrete part - which '
        'formula, which direction, which record, which argument - is what S01, S03, B01, K02, V04 and D02 decide.')

prop('X02', 'No index is out of range',
     'Every element access in presolve and postsolve lies inside its array, for every problem.',
     ['inputs', 'histories'], 'all problems, all sequences of reductions',
     'Sanitizers see only the executed accesses.', ['src'], [('matrix storage', 'src/core/Matrix.c')],
     na='Needs relational invariants over array contents (row ranges ordered and disjoint, transpose in step with the matrix, list '
        'entries below the sizes) that hold between reductions but not inside them; the static domains here do not express them. '
        'Caller arrays (A01), the kind of every index and extent (I01) and the life of every block (M01, M02) are decided instead.')
