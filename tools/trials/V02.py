import sys; import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from trial import run
P='src/core/Presolver.c'
run('V02',[
 ('ubs=lb','V',[(P,'reduced_prob->ubs[i] = constraints->bounds[i].ub','reduced_prob->ubs[i] = constraints->bounds[i].lb')]),
 ('Ap short','V',[(P,'i < A->m + 1; i++)\n    {\n        reduced','i < A->m; i++)\n    {\n        reduced')]),
 ('Ap end','V',[(P,'A->p[i].start;','A->p[i].end;')]),
 ('lbs from 1','V',[(P,'for (int i = 0; i < A->n; i++)\n    {\n        reduced','for (int i = 1; i < A->n; i++)\n    {\n        reduced')]),
 ('loop m','V',[(P,'for (int i = 0; i < A->n; i++)\n    {\n        reduced','for (int i = 0; i < A->m; i++)\n    {\n        reduced')]),
 ('no offset','V',[(P,'    reduced_prob->obj_offset = presolver->prob->obj->offset;\n','')]),
 ('AT','V',[(P,'reduced_prob->Ax = A->x','reduced_prob->Ax = constraints->AT->x')]),
 ('swap','V',[(P,'reduced_prob->rhs = constraints->rhs','reduced_prob->rhs = constraints->lhs')]),
 ('order','V',[(P,'    stats->n_cols_reduced = A->n;\n',''),(P,'    problem_clean(prob, true);\n','    stats->n_cols_reduced = A->n;\n    problem_clean(prob, true);\n')]),
 ('populate early','V',[(P,'    populate_presolved_problem(presolver);\n',''),(P,'    problem_clean(prob, true);\n','    populate_presolved_problem(presolver);\n    problem_clean(prob, true);\n')]),
 ('no nnz cmp','V',[(P,'stats->n_rows_original == stats->n_rows_reduced &&\n        stats->nnz_original == stats->nnz_reduced)','stats->n_rows_original == stats->n_rows_reduced)')]),
 ('or','V',[(P,'stats->n_rows_original == stats->n_rows_reduced &&','stats->n_rows_original == stats->n_rows_reduced ||')]),
 ('cond bounds','V',[(P,'    for (int i = 0; i < A->n; i++)\n    {\n        reduced','    if (A->m > 0) for (int i = 0; i < A->n; i++)\n    {\n        reduced')]),
 ('inner cond','V',[(P,'reduced_prob->ubs[i] = constraints->bounds[i].ub;','if (!isinf(constraints->bounds[i].ub)) reduced_prob->ubs[i] = constraints->bounds[i].ub;')]),
 ('publish on infeas','V',[(P,'        return status;\n    }\n\n    if (stgs->relax_bounds)','        populate_presolved_problem(presolver); return status;\n    }\n\n    if (stgs->relax_bounds)')]),
 ('stats orig','V',[(P,'stats->n_cols_original = n_cols','stats->n_cols_original = n_rows')]),
 ('reverse loop','Q',[(P,'for (int i = 0; i < A->n; i++)\n    {\n        reduced','for (int i = (int) A->n - 1; i >= 0; i--)\n    {\n        reduced')]),
 ('ptr loop','Q',[(P,'''    for (int i = 0; i < A->n; i++)
    {
        reduced_prob->lbs[i] = constraints->bounds[i].lb;
        reduced_prob->ubs[i] = constraints->bounds[i].ub;
    }''','''    const Bound *b = constraints->bounds, *e = b + A->n; double *l = reduced_prob->lbs, *u = reduced_prob->ubs;
    while (b != e) { *l++ = b->lb; *u++ = b->ub; ++b; }''')]),
 ('helper','Q',[(P,'void populate_presolved_problem(','static void cpb(PresolvedProblem *r, const Bound *b, size_t n) { size_t k = 0; while (k < n) { r->ubs[k] = b[k].ub; r->lbs[k] = b[k].lb; k++; } }\nvoid populate_presolved_problem('),(P,'''    for (int i = 0; i < A->n; i++)
    {
        reduced_prob->lbs[i] = constraints->bounds[i].lb;
        reduced_prob->ubs[i] = constraints->bounds[i].ub;
    }''','cpb(reduced_prob, constraints->bounds, A->n);')]),
 ('split loops','Q',[(P,'''        reduced_prob->lbs[i] = constraints->bounds[i].lb;
        reduced_prob->ubs[i] = constraints->bounds[i].ub;
    }''','''        reduced_prob->lbs[i] = constraints->bounds[i].lb;
    }
    for (size_t i = 0; i < reduced_prob->n; ++i)
        reduced_prob->ubs[i] = constraints->bounds[i].ub;
''')]),
 ('Ap last sep','Q',[(P,'i < A->m + 1; i++)\n    {\n        reduced_prob->Ap[i] = A->p[i].start;\n    }','i < A->m; i++)\n    {\n        reduced_prob->Ap[i] = A->p[i].start;\n    }\n    reduced_prob->Ap[A->m] = A->p[A->m].start;')]),
 ('final_status arith','Q',[(P,'    if (stats->n_cols_original == stats->n_cols_reduced &&','    size_t d = stats->n_cols_original - stats->n_cols_reduced;\n    if (d == 0 &&')]),
 ('final_status nested','Q',[(P,'''    if (stats->n_cols_original == stats->n_cols_reduced &&
        stats->n_rows_original == stats->n_rows_reduced &&
        stats->nnz_original == stats->nnz_reduced)
    {
        return UNCHANGED;
    }
    else
    {
        return REDUCED;
    }''','''    PresolveStatus st = REDUCED;
    if (stats->nnz_original != stats->nnz_reduced) return st;
    if (stats->n_rows_original == stats->n_rows_reduced)
        st = stats->n_cols_original > stats->n_cols_reduced ? REDUCED : UNCHANGED;
    return st;''')]),
 ('malloc check','Q',[(P,'''    // create row pointers
''','''    if (A->n > 0 && (!reduced_prob->lbs || !reduced_prob->ubs)) { fprintf(stderr, "oom"); exit(1); }
''')]),
 ('stats after','Q',[(P,'    stats->n_rows_reduced = A->m;\n    stats->n_cols_reduced = A->n;\n    stats->nnz_reduced = A->nnz;\n    DEBUG(run_debugger_stats_consistency_check(stats));\n    populate_presolved_problem(presolver);','    populate_presolved_problem(presolver);\n    stats->n_rows_reduced = presolver->reduced_prob->m;\n    stats->n_cols_reduced = A->n;\n    stats->nnz_reduced = A->nnz;\n ')]),
])
