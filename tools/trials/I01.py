"""row/column mix-ups for I01"""
import os
import sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from trial import one  # noqa: E402
PR, ST, WK, CN, MX, PO, PB, CT, AC, LO = ['src/core/%s.c' % n for n in ('Presolver', 'State', 'Workspace', 'Constraints', 'Matrix', 'Postsolver', 'Problem', 'CoreTransformations', 'Activity', 'Locks')]
SR, SC, PPR, PL, PC, DT, SD = ['src/explorers/%s.c' % n for n in ('SimpleReductions', 'StonCols', 'Primal_propagation', 'Parallel_rows', 'Parallel_cols', 'DtonsEq', 'Simple_dual_fix')]
T = []


def t(label, *edits, expect='V'):
    T.append(('I01', label, expect, list(edits)))


t('shrink lhs by cols', (CN, 'dPtr_shrink(constraints->lhs, map->rows, constraints->m);', 'dPtr_shrink(constraints->lhs, map->cols, constraints->m);'))
t('shrink bounds by rows', (CN, 'bounds_shrink(constraints->bounds, map->cols, constraints->n);', 'bounds_shrink(constraints->bounds, map->rows, constraints->n);'))
t('shrink rhs n', (CN, 'dPtr_shrink(constraints->rhs, map->rows, constraints->m);', 'dPtr_shrink(constraints->rhs, map->rows, constraints->n);'))
t('shrink c', (PB, 'objective_shrink(prob->obj->c, maps->cols, n_cols_old);', 'objective_shrink(prob->obj->c, maps->rows, n_cols_old);'))
t('shrink c count', (PB, 'objective_shrink(prob->obj->c, maps->cols, n_cols_old);', 'objective_shrink(prob->obj->c, maps->cols, n_rows_old);'))
t('clean sizes', (CN, 'remove_extra_space(constraints->A, row_sizes, col_sizes, remove_all, map->cols);', 'remove_extra_space(constraints->A, row_sizes, row_sizes, remove_all, map->cols);'))
t('clean maps', (CN, 'remove_extra_space(constraints->A, row_sizes, col_sizes, remove_all, map->cols);\n    remove_extra_space(constraints->AT, col_sizes, row_sizes, remove_all, map->rows);', 'remove_extra_space(constraints->A, row_sizes, col_sizes, remove_all, map->rows);\n    remove_extra_space(constraints->AT, col_sizes, row_sizes, remove_all, map->cols);'))
t('clean loop n', (MX, '    for (i = 0; i < A->n; ++i)\n    {\n        if (col_sizes[i] == SIZE_INACTIVE_COL)', '    for (i = 0; i < A->m; ++i)\n    {\n        if (col_sizes[i] == SIZE_INACTIVE_COL)'))
t('state shrink', (ST, 'iPtr_shrink(data->col_sizes, maps->cols, n_cols);', 'iPtr_shrink(data->col_sizes, maps->rows, n_cols);'))
t('state list shrink', (ST, 'shrink_idx_vector(data->ston_cols, maps->cols);', 'shrink_idx_vector(data->ston_cols, maps->rows);'))
t('maps to postsolve', (PO, '    info->col_map = col_map;\n    info->row_map = row_map;', '    info->col_map = row_map;\n    info->row_map = col_map;'))
t('postsolve y by col', (PO, 'sol->y[i] = y[row_map[i]];', 'sol->y[i] = y[col_map[i]];'))
t('postsolve dims', (PO, '    size_t dim_y = sol->dim_y;', '    size_t dim_y = sol->dim_x;'))
t('redundant bounds order', (PPR, '    size_t n_cols = constraints->n;\n    Activity *acts', '    size_t n_cols = constraints->m;\n    Activity *acts'))
t('ston coefficient', (SR, 'double aik = constrs->A->x[row_range->start];', 'double aik = constrs->AT->x[row_range->start];'))
t('sol y length', (PR, 'presolver->sol->y = (double *) ps_malloc(n_rows, sizeof(double));', 'presolver->sol->y = (double *) ps_malloc(n_cols, sizeof(double));'))
t('dim y', (PR, 'presolver->sol->dim_y = n_rows;', 'presolver->sol->dim_y = n_cols;'))
t('lhs copy length', (PR, 'lhs_copy = (double *) ps_malloc(n_rows, sizeof(double));', 'lhs_copy = (double *) ps_malloc(n_cols, sizeof(double));'))
t('ubs length', (PR, 'reduced_prob->ubs = (double *) malloc(A->n * sizeof(double));', 'reduced_prob->ubs = (double *) malloc(A->m * sizeof(double));'))
t('constraints n', (CN, '    constraints->n = constraints->A->n;\n', '    constraints->n = constraints->A->m;\n'))
t('sizes swapped', (PR, 'data = new_state(row_sizes, col_sizes, locks,', 'data = new_state(col_sizes, row_sizes, locks,'))
t('counter for both', (CN, '    dPtr_shrink(constraints->rhs, map->rows, constraints->m);\n', '    size_t mx = constraints->m > constraints->n ? constraints->m : constraints->n;\n    for (size_t q = 0; q < mx; q++)\n    {\n        if (q < constraints->m && map->rows[q] != -1) constraints->rhs[map->rows[q]] = constraints->rhs[q];\n        if (q < constraints->n && map->cols[q] != -1) constraints->col_tags[map->cols[q]] = constraints->col_tags[q];\n    }\n'), (CN, '    colTagPtr_shrink(constraints->col_tags, map->cols, constraints->n);\n', ''), expect='Q')


if __name__ == '__main__':
    sel = sys.argv[1:]
    L = [x for x in T if not sel or any(s in x[1] for s in sel)]
    with ThreadPoolExecutor(4) as ex:
        for o in ex.map(lambda x: one(*x), L):
            print(o, flush=True)
