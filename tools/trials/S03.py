import sys; import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from trial import run
P='src/core/Postsolver.c'; R='src/core/Presolver.c'
X='''        if (col_map[i] == -1)
        {
            sol->x[i] = COL_NOT_RETRIEVED;
            sol->z[i] = COL_NOT_RETRIEVED;
            continue;
        }

        sol->x[i] = x[col_map[i]];
        sol->z[i] = z[col_map[i]];
'''
Y='''        if (row_map[i] == -1)
        {
            sol->y[i] = ROW_NOT_RETRIEVED;
            continue;
        }

        sol->y[i] = y[row_map[i]];
'''
run('S03',[
 ('z not reset','V',[(P,'            sol->z[i] = COL_NOT_RETRIEVED;\n','')]),
 ('y kept','V',[(P,'            sol->y[i] = ROW_NOT_RETRIEVED;\n','')]),
 ('z from x','V',[(P,'sol->z[i] = z[col_map[i]]','sol->z[i] = x[col_map[i]]')]),
 ('y colmap','V',[(P,'sol->y[i] = y[row_map[i]]','sol->y[i] = y[col_map[i]]')]),
 ('y unmapped','V',[(P,'sol->y[i] = y[row_map[i]]','sol->y[i] = y[i]')]),
 ('dimx for y','V',[(P,'size_t dim_y = sol->dim_y','size_t dim_y = sol->dim_x')]),
 ('from 1','V',[(P,'for (size_t i = 0; i < dim_y','for (size_t i = 1; i < dim_y')]),
 ('consume','V',[(P,'    // polish_z(sol, lbs, ubs);','    info->type->len = 0;')]),
 ('once','V',[(P,'        if (col_map[i] == -1)\n','        if (sol->x[i] == x[i] || col_map[i] == -1)\n')]),
 ('scale record','V',[(P,'    sol->z[k] = ck - aik * sol->y[i];\n','    sol->z[k] = ck - aik * sol->y[i];\n    ((double *) vals)[0] = aik;\n')]),
 ('offset','V',[(R,'    postsolver_run(postsolve_info, sol, x, y, z);','    postsolver_run(postsolve_info, sol, x, y, z); presolver->reduced_prob->obj_offset = 0.0;')]),
 ('free lists','V',[(R,'    postsolver_run(postsolve_info, sol, x, y, z);','    postsolver_run(postsolve_info, sol, x, y, z); stats->n_cols_reduced = stats->n_cols_original;')]),
 ('zero skip','V',[(P,'        sol->z[i] = z[col_map[i]];','        if (z[col_map[i]] != 0.0) sol->z[i] = z[col_map[i]];')]),
 ('map0','V',[(P,'if (row_map[i] == -1)','if (row_map[i] <= 0)')]),
 ('neg read','V',[(P,'if (row_map[i] == -1)','if (row_map[i] < -1)')]),
 ('dims swapped','V',[(R,'dim_x = n_cols','dim_x = n_rows')]),
 ('x caller','V',[(P,'        sol->x[i] = x[col_map[i]];','        sol->x[i] = x[col_map[i]]; ((double *) x)[col_map[i]] = 0;')]),
 ('counter read','V',[(P,'    copy_reduced_sol_to_orginal(sol, x, y, z, col_map, row_map);','    if (info->n_cols_reduced != 77) copy_reduced_sol_to_orginal(sol, x, y, z, col_map, row_map); ((PostsolveInfo *) info)->n_cols_reduced = 77;')]),
 ('early','V',[(P,'    copy_reduced_sol_to_orginal(sol, x, y, z, col_map, row_map);','    if (sol->dim_x > 3) copy_reduced_sol_to_orginal(sol, x, y, z, col_map, row_map);')]),
 ('split','Q',[(P,X,'''        const int c = col_map[i];
        sol->x[i] = c == -1 ? COL_NOT_RETRIEVED : x[c];
        if (c >= 0) sol->z[i] = z[c]; else sol->z[i] = COL_NOT_RETRIEVED;
''')]),
 ('two loops','Q',[(P,'''        sol->z[i] = z[col_map[i]];
    }
''','''    }
    for (size_t i = 0; i < dim_x; ++i) { if (col_map[i] != -1) sol->z[i] = z[col_map[i]]; }
''')]),
 ('pointers','Q',[(P,Y,'''        double *yi = sol->y + i; int r = *(row_map + i);
        if (r != -1) *yi = y[r]; else { *yi = ROW_NOT_RETRIEVED; }
''')]),
 ('helper','Q',[(P,'static inline void copy_reduced_sol','''static void spread(double *o, const double *v, const int *m, size_t n, double e) { const int *p = m; double *q = o; while (p != m + n) { *q = *p == -1 ? e : v[*p]; ++p; ++q; } }
static inline void copy_reduced_sol'''),(P,'''    for (size_t i = 0; i < dim_y; ++i)
    {
'''+Y+'    }\n','    spread(sol->y, y, row_map, dim_y, ROW_NOT_RETRIEVED);\n')]),
 ('reverse','Q',[(P,'for (size_t i = 0; i < dim_y; ++i)','for (size_t i = dim_y; i-- > 0;)')]),
 ('no info update','Q',[(R,'''    postsolver_update(postsolve_info, stats->n_cols_reduced, stats->n_rows_reduced,
                      data->work->mappings->cols, data->work->mappings->rows);
''','''    postsolve_info->row_map = data->work->mappings->rows;
    postsolve_info->col_map = data->work->mappings->cols;
''')]),
 ('sol struct local','Q',[(P,'    size_t dim_y = sol->dim_y;','    Solution *sl = sol; size_t dim_y = sl->dim_y; double *yy = sl->y; (void) yy;')]),
 ('verbose','Q',[(R,'        printf("PSLP postsolve time: %.4f seconds\\n", stats->time_postsolve);','        double t = stats->time_postsolve; printf("PSLP postsolve time: %.4f seconds\\n", t);')]),
 ('dims','Q',[(R,'dim_x = n_cols','dim_x = presolver->prob->constraints->n')]),
 ('fill first','Q',[(P,'''            sol->y[i] = ROW_NOT_RETRIEVED;
            continue;''','            continue;'),(P,'    size_t dim_y = sol->dim_y;','    size_t dim_y = sol->dim_y; for (size_t i = 0; i < dim_y; i++) sol->y[i] = ROW_NOT_RETRIEVED;')]),
])
