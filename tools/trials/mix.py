"""independent bugs for the interface properties: (property, label, expect, edits)"""
import os
import sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from trial import one  # noqa: E402
PR, ST, WK, CN, MX, PO, PB = ['src/core/%s.c' % n for n in ('Presolver', 'State', 'Workspace', 'Constraints', 'Matrix', 'Postsolver', 'Problem')]
SR, SC, PPR, PL, PC, DT, SD = ['src/explorers/%s.c' % n for n in ('SimpleReductions', 'StonCols', 'Primal_propagation', 'Parallel_rows', 'Parallel_cols', 'DtonsEq', 'Simple_dual_fix')]
T = []


def t(pid, label, *edits, expect='V'):
    T.append((pid, label, expect, list(edits)))


# ---- A01
t('A01', 'lhs kept', (PR, 'memcpy(c_copy, c, n_cols * sizeof(double));', 'memcpy(c_copy, c, n_cols * sizeof(double));\n    if (n_rows == 1) work->iwork_n_rows[0] = (int) lhs[1];'))
t('A01', 'clean sides in place', (PR, 'memcpy(rhs_copy, rhs, n_rows * sizeof(double));', 'for (size_t q = 0; q < n_rows; q++)\n        if (rhs[q] > 1e90) ((double *) rhs)[q] = INF;\n    memcpy(rhs_copy, rhs, n_rows * sizeof(double));'))
t('A01', 'c length rows', (PR, 'memcpy(c_copy, c, n_cols * sizeof(double));', 'memcpy(c_copy, c, MAX(n_cols, n_rows) * sizeof(double));'))
t('A01', 'bounds to n inclusive', (PR, 'for (int i = 0; i < data->n_cols; i++)\n    {\n        data->bounds[i].lb = data->lbs[i];', 'for (int i = 0; i <= data->n_cols; i++)\n    {\n        data->bounds[i].lb = data->lbs[i];'))
t('A01', 'c alias when sorted', (PR, 'obj = objective_new(c_copy);', 'obj = objective_new(n_rows == 0 ? (double *) c : c_copy);'))
t('A01', 'postsolve normalises y', (PO, 'void postsolver_run(', 'static void nop_(void) {}\nvoid postsolver_run('), (PR, 'postsolver_run(postsolve_info, sol, x, y, z);', 'if (stats->n_rows_reduced == 0 && y) ((double *) y)[0] = 0.0;\n    postsolver_run(postsolve_info, sol, x, y, z);'))
t('A01', 'Ap one more', (MX, '    // Ap has n_rows + 1 entries\n    A->p[n_rows].start = Ap[n_rows];\n    A->p[n_rows].end = Ap[n_rows];\n', '    A->p[n_rows].start = Ap[n_rows];\n    A->p[n_rows].end = Ap[n_rows + 1];\n'))
t('A01', 'settings retained ok', (PR, '    presolver->stgs = stgs;\n', '    presolver->stgs = stgs;\n    (void) c;\n'), expect='Q')
# ---- A02
t('A02', 'dual fix in propagation', (PPR, 'PresolveStatus propagate_primal(Problem *prob', 'PresolveStatus simple_dual_fix(Problem *prob);\nPresolveStatus propagate_primal(Problem *prob'), (PPR, '#include "State.h"', '#include "State.h"\n#include "Simple_dual_fix.h"'), (PR, '        status |= check_activities(prob);\n', '        status |= check_activities(prob);\n        if (prob->constraints->A->nnz > 1000) status |= simple_dual_fix(prob);\n'))
t('A02', 'relax flag swapped', (PR, '    if (stgs->relax_bounds)\n', '    if (stgs->relax_bounds || stgs->finite_bound_tightening)\n'))
t('A02', 'tightening ignored', (PR, 'propagate_primal(prob, stgs->finite_bound_tightening)', 'propagate_primal(prob, true)'))
t('A02', 'tightening by size', (PR, 'propagate_primal(prob, stgs->finite_bound_tightening)', 'propagate_primal(prob, stgs->finite_bound_tightening || *nnz < 50)'))
t('A02', 'parallel cols via rows', (PR, '    if (stgs->parallel_cols)\n', '    if (stgs->parallel_cols && stgs->parallel_rows)\n'))
t('A02', 'shared flag', (PR, '    if (stgs->parallel_rows)\n', '    if (stgs->parallel_rows || stgs->parallel_cols)\n'))
t('A02', 'max_shift unset', (PR, '    stgs->max_shift = 10;\n', ''))
t('A02', 'default gated', (PR, '    stgs->relax_bounds = true;\n    stgs->max_shift = 10;', '    stgs->relax_bounds = stgs->dual_fix;\n    stgs->max_shift = 10;'), expect='Q')
t('A02', 'presolve turns off', (PR, '    if (stgs->verbose)\n    {\n        print_start_message(stats);', '    if (A->n < 2) ((Settings *) stgs)->parallel_cols = false;\n    if (stgs->verbose)\n    {\n        print_start_message(stats);'))
t('A02', 'ston cols in trivial', (PR, '    status = remove_empty_cols(prob);\n    RETURN_IF_UNBNDORINFEAS(status);\n', '    status = remove_empty_cols(prob);\n    RETURN_IF_UNBNDORINFEAS(status);\n    if (prob->constraints->A->m == 1) status |= remove_ston_cols(prob);\n'))
t('A02', 'dton second', (PR, '        status |= remove_dton_eq_rows(prob, stgs->max_shift);\n', '        status |= remove_dton_eq_rows(prob, stgs->max_shift);\n        if (prob->constraints->state->ston_cols->len > 0)\n            status |= remove_ston_cols(prob);\n'))
# ---- A03
t('A03', 'print in explorer', (SC, '        if (is_lb_inf)\n        {\n            return UNBNDORINFEAS;\n        }\n', '        if (is_lb_inf)\n        {\n            printf("unbounded\\n");\n            return UNBNDORINFEAS;\n        }\n'))
t('A03', 'time message', (PR, '        if (verbose)\n        {\n            printf("Maximum', '        if (verbose || max_time <= 0)\n        {\n            printf("Maximum'))
t('A03', 'verbose negated in init', (PR, '    presolver->stats->time_init = GET_ELAPSED_SECONDS(timer);\n', '    presolver->stats->time_init = GET_ELAPSED_SECONDS(timer);\n    if (presolver->stats->time_init > 10.0) fprintf(stderr, "slow\\n");\n'))
t('A03', 'perror', (MX, '    memcpy(A->x, Ax, nnz * sizeof(double));\n', '    if (Ap[n_rows] != nnz) perror("PSLP");\n    memcpy(A->x, Ax, nnz * sizeof(double));\n'))
t('A03', 'puts via other flag', (PR, '        if (stgs->verbose)\n        {\n            print_infeas_or_unbnd_message(status);\n        }\n', '        if (stgs->verbose || status == UNBNDORINFEAS)\n        {\n            print_infeas_or_unbnd_message(status);\n        }\n'))
t('A03', 'write()', (PR, 'static inline void print_end_message', '#include <unistd.h>\nstatic inline void print_end_message'), (PR, '    return final_status(stats);\n', '    if (stats->nnz_reduced == 0) (void) !write(2, "empty\\n", 6);\n    return final_status(stats);\n'))
# ---- R01
t('R01', 'static counter', (PO, 'void postsolver_run(', 'static int runs;\nvoid postsolver_run('), (PO, '    copy_reduced_sol_to_orginal(sol, x, y, z, col_map, row_map);\n', '    runs++;\n    copy_reduced_sol_to_orginal(sol, x, y, z, col_map, row_map);\n'))
t('R01', 'static buffer', (MX, 'Matrix *transpose(const Matrix *A, int *work_n_cols)\n{', 'static int small[64];\nMatrix *transpose(const Matrix *A, int *work_n_cols)\n{\n    if (A->n <= 64) work_n_cols = small;'))
t('R01', 'rand', (PL, 'uint32_t hash = 5381;', 'uint32_t hash = 5381u + (uint32_t) (rand() & 1);'))
t('R01', 'strtok/errno ok', (PR, '    Timer timer;\n    clock_gettime(CLOCK_MONOTONIC, &timer.start);\n    Matrix *A = NULL', '    Timer timer;\n    static const int zero = 0;\n    (void) zero;\n    clock_gettime(CLOCK_MONOTONIC, &timer.start);\n    Matrix *A = NULL'), expect='Q')
t('R01', 'static default settings', (PR, '    Settings *stgs = (Settings *) ps_malloc(1, sizeof(Settings));\n    RETURN_PTR_IF_NULL(stgs, NULL);\n', '    Settings *stgs = (Settings *) ps_malloc(1, sizeof(Settings));\n    RETURN_PTR_IF_NULL(stgs, NULL);\n    static Settings last;\n    last.max_shift = 10;\n    (void) last;\n'))
t('R01', 'thread local timer', (PR, '    Timer inner_timer, outer_timer;\n    size_t nnz_before_cycle', '    static Timer inner_timer;\n    Timer outer_timer;\n    size_t nnz_before_cycle'))
# ---- T01
t('T01', 'terminate or', (PR, '    if (GET_ELAPSED_SECONDS(outer_timer) >= max_time)\n', '    if (GET_ELAPSED_SECONDS(outer_timer) >= max_time && complexity == MEDIUM)\n'))
t('T01', 'progress reset', (PR, '            nnz_before_cycle = nnz_after_cycle;\n', '            nnz_before_cycle = A->nnz + 1;\n'), expect='Q')
t('T01', 'fast forever', (PR, '        if ((double) nnz_after_phase < NNZ_REMOVED_FAST * (double) nnz_before_phase)\n', '        if ((double) nnz_after_phase <= (double) nnz_before_phase)\n'))
t('T01', 'order of checks', (PR, '    if (HAS_STATUS(status, UNBNDORINFEAS))\n    {\n        return true;\n    }\n\n    if (complexity', '    if (HAS_STATUS(status, UNBNDORINFEAS))\n    {\n        return true;\n    }\n    if (nnz_after_cycle == nnz_before_cycle && complexity == FAST) return false;\n\n    if (complexity'))
t('T01', 'start reset each cycle', (PR, '            nnz_before_cycle = nnz_after_cycle;\n', '            nnz_before_cycle = nnz_after_cycle;\n            clock_gettime(CLOCK_MONOTONIC, &outer_timer.start);\n'))
t('T01', 'cycle factor', (PR, '(double) nnz_after_cycle >= NNZ_REMOVED_CYCLE * (double) nnz_before_cycle)', '(double) nnz_after_cycle > (2.0 - NNZ_REMOVED_CYCLE) * (double) nnz_before_cycle)'))
t('T01', 'medium again', (PR, '    else if (curr_complexity == MEDIUM)\n    {\n        return FAST;\n    }\n', '    else if (curr_complexity == MEDIUM)\n    {\n        return nnz_after_phase == 0 ? FAST : MEDIUM;\n    }\n'), expect='Q')
# ---- V01
t('V01', 'break on infeasible only', (PR, '        status |= remove_parallel_cols(prob);\n', '        (void) remove_parallel_cols(prob);\n'))
t('V01', 'bins masked', (PC, '        status |= process_single_bin(prob, parallel_cols + groups->data[i],\n                                     n_cols_this_group);\n', '        status = process_single_bin(prob, parallel_cols + groups->data[i],\n                                    n_cols_this_group);\n'))
t('V01', 'dual fix last', (SD, '        status |= _simple_dual_fix(', '        status = _simple_dual_fix('))
t('V01', 'fix_col ignored', (SD, '        fix_col(constraints, col, lb, ck);\n        return UNCHANGED;', '        fix_col(constraints, col, lb, ck);\n        return UNCHANGED;'), expect='Q')
t('V01', 'modify bounds', (DT, '''            if (status == INFEASIBLE ||
                HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
            {
                return status;
            }
        }

        if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
        {
            double new_lb_cand''', '''            if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
            {
                return status;
            }
        }

        if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
        {
            double new_lb_cand'''))
t('V01', 'ston cols loop', (SC, '''    if (HAS_STATUS(status, UNBNDORINFEAS))
    {
        return UNBNDORINFEAS;
    }
    else if (HAS_STATUS(status, REDUCED))''', '''    if (status == UNBNDORINFEAS)
    {
        return UNBNDORINFEAS;
    }
    else if (HAS_STATUS(status, REDUCED))'''))
t('V01', 'close bounds', (PR, '    status = remove_variables_with_close_bounds(prob);\n    RETURN_IF_INFEASIBLE(status);\n', '    status = remove_variables_with_close_bounds(prob);\n'))
t('V01', 'medium early', (PR, '        status |= remove_parallel_rows(prob->constraints);\n', '        status |= remove_parallel_rows(prob->constraints) & REDUCED;\n'))
t('V01', 'verdict clipped', (PR, '    if (status != UNCHANGED)\n    {\n        // problem detected', '    if (status == INFEASIBLE)\n    {\n        // problem detected'))
t('V01', 'dton infeasible', (DT, '    return (status == INFEASIBLE) ? INFEASIBLE : UNCHANGED;\n', '    return (status == INFEASIBLE && (*dton_rows)->len > 0) ? INFEASIBLE : UNCHANGED;\n'))
# ---- M01/M02
t('M01', 'iwork twice', (PB, '        free_work(data->work);\n', '        free_work(data->work);\n        if (problem->constraints->m == 0) free_work(data->work);\n'))
t('M01', 'rerun leak', (PR, '    // create bounds arrays\n', '    reduced_prob->lbs = (double *) malloc(8);\n    // create bounds arrays\n'))
t('M01', 'mappings forgotten', (WK, '        PS_FREE(work->mappings->cols);\n        PS_FREE(work->mappings->rows);\n', '        PS_FREE(work->mappings->cols);\n'))
t('M01', 'use after free state', (PB, '        free_work(data->work);\n        PS_FREE(data->col_locks);', '        free_state(data);\n        free_work(data->work);\n        PS_FREE(data->col_locks);'), (PB, '        free_state(data);\n    }\n\n    free_con', '    }\n\n    free_con'))
t('M01', 'realloc lost', (MX, '    A->p = (RowRange *) ps_realloc(A->p, (size_t) (A->m + 1), sizeof(RowRange));\n', '    if (A->m > 0)\n        A->p = (RowRange *) ps_realloc(A->p, (size_t) (A->m + 1), sizeof(RowRange));\n    else\n        A->p = (RowRange *) ps_calloc(1, sizeof(RowRange));\n'))
t('M01', 'sol freed on verdict', (PR, '            print_infeas_or_unbnd_message(status);\n        }\n\n        return status;', '            print_infeas_or_unbnd_message(status);\n        }\n        PS_FREE(presolver->sol->x);\n        free(presolver->sol);\n\n        return status;'))
t('M01', 'sol x freed nulled', (PR, '            print_infeas_or_unbnd_message(status);\n        }\n\n        return status;', '            print_infeas_or_unbnd_message(status);\n        }\n        PS_FREE(presolver->sol->x);\n\n        return status;'))
t('M02', 'sol unchecked', (PR, '    if (!presolver->sol->x || !presolver->sol->y || !presolver->sol->z)\n', '    if (!presolver->sol->x || !presolver->sol->y)\n'))
t('M02', 'null early', (PR, '    if (!data) goto cleanup;\n', '    if (!data) return NULL;\n'))
t('M02', 'cleared too early', (PR, '    if (!presolver->prob) goto cleanup;\n\n', ''), (PR, '    work = NULL;\n    constraints = NULL;\n    obj = NULL;\n\n', '    work = NULL;\n    constraints = NULL;\n    obj = NULL;\n    if (!presolver->prob) goto cleanup;\n\n'))
t('M02', 'A not cleared', (PR, '    A = AT = NULL;\n    lhs_copy = rhs_copy = NULL;\n    bounds', '    AT = NULL;\n    lhs_copy = rhs_copy = NULL;\n    bounds'))
t('M02', 'thread fail', (PR, '    else\n    {\n        init_thread_func(&parallel_data);\n    }\n', '    else\n    {\n        goto cleanup;\n    }\n'), expect='Q')
t('M02', 'locks unchecked', (PR, 'if (!AT || !row_tags || !locks || !activities) goto cleanup;', 'if (!AT || !row_tags || !activities) goto cleanup;'))
t('M02', 'work partial', (WK, '        !work->int_vec || !work->mappings || !work->mappings->cols ||\n', '        !work->int_vec || !work->mappings->cols ||\n'))
t('M02', 'vec data', ('include/data_structures/Vec_macros.h', '            PS_FREE(vec);                                                           \\\n            return NULL;', '            return vec;'), expect='V')
# ---- V02
t('V02', 'stats rows', (PR, '    stats->n_rows_reduced = A->m;\n', '    stats->n_rows_reduced = prob->constraints->m;\n'), expect='Q')
t('V02', 'stats early', (PR, '    problem_clean(prob, true);\n', '    stats->nnz_reduced = A->nnz;\n    problem_clean(prob, true);\n'), (PR, '    stats->nnz_reduced = A->nnz;\n    DEBUG(run_debugger_stats', '    DEBUG(run_debugger_stats'), expect='Q')
t('V02', 'status or', (PR, '        stats->n_rows_original == stats->n_rows_reduced &&\n        stats->nnz', '        stats->n_rows_original == stats->n_rows_reduced ||\n        stats->nnz'))
t('V02', 'offset early', (PR, '    reduced_prob->obj_offset = presolver->prob->obj->offset;\n', ''), (PR, '    problem_clean(prob, true);\n', '    presolver->reduced_prob->obj_offset = 0.0;\n    problem_clean(prob, true);\n'))
t('V02', 'lbs swapped', (PR, '        reduced_prob->ubs[i] = constraints->bounds[i].ub;\n', '        reduced_prob->ubs[i] = constraints->bounds[i].lb;\n'))
t('V02', 'lhs rhs swapped', (PR, '    reduced_prob->rhs = constraints->rhs;\n    reduced_prob->lhs = constraints->lhs;\n', '    reduced_prob->rhs = constraints->lhs;\n    reduced_prob->lhs = constraints->rhs;\n'))
t('V02', 'populate before clean', (PR, '    problem_clean(prob, true);\n', '    populate_presolved_problem(presolver);\n    problem_clean(prob, true);\n'), (PR, '    populate_presolved_problem(presolver);\n    clock', '    clock'))
t('V02', 'clean keeps space', (PR, '    problem_clean(prob, true);\n', '    problem_clean(prob, A->nnz > 0);\n'))
t('V02', 'relax after publish', (PR, '    if (stgs->relax_bounds)\n    {\n        remove_redundant_bounds(prob->constraints);\n    }\n\n    problem_clean(prob, true);\n', '    problem_clean(prob, true);\n'), (PR, '    populate_presolved_problem(presolver);\n    clock', '    populate_presolved_problem(presolver);\n    if (stgs->relax_bounds)\n    {\n        remove_redundant_bounds(prob->constraints);\n    }\n    clock'))
t('V02', 'original overwritten', (PR, '    stats->nnz_reduced = A->nnz;\n', '    stats->nnz_reduced = A->nnz;\n    stats->nnz_original = MAX(stats->nnz_original, A->nnz);\n'))
t('V02', 'verdict published', (PR, '            print_infeas_or_unbnd_message(status);\n        }\n\n        return status;', '            print_infeas_or_unbnd_message(status);\n        }\n        populate_presolved_problem(presolver);\n        return status;'))
t('V02', 'nnz counts', (PR, '    reduced_prob->nnz = A->nnz;\n', '    reduced_prob->nnz = (size_t) A->p[A->m].start;\n'), expect='Q')

if __name__ == '__main__':
    sel = sys.argv[1:]
    L = [x for x in T if not sel or any(s in x[0] + ' ' + x[1] for s in sel)]
    with ThreadPoolExecutor(4) as ex:
        for o in ex.map(lambda x: one(*x), L):
            print(o, flush=True)
