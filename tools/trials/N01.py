import sys; import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from trial import run
P='src/core/Presolver.c'; T='src/core/Tags.c'; M='src/core/Matrix.c'
R=open('/repo/'+P).read()
CP='memcpy(lhs_copy, lhs, n_rows * sizeof(double));'
run('N01',[
 ('lhs rhs','V',[(P,CP,'memcpy(lhs_copy, rhs, n_rows * sizeof(double));')]),
 ('lhs n','V',[(P,CP,'memcpy(lhs_copy, lhs, n_cols * sizeof(double));')]),
 ('c m','V',[(P,'memcpy(c_copy, c, n_cols','memcpy(c_copy, c, n_rows')]),
 ('c float','V',[(P,'memcpy(c_copy, c, n_cols * sizeof(double))','memcpy(c_copy, c, n_cols * sizeof(int))')]),
 ('swapped args','V',[(P,'lbs,\n                                      ubs,','ubs,\n                                      lbs,')]),
 ('lb ub','V',[(P,'data->bounds[i].ub = data->ubs[i];','data->bounds[i].ub = data->lbs[i];')]),
 ('ub if','V',[(P,'data->bounds[i].ub = data->ubs[i];','if (i != 7) data->bounds[i].ub = data->ubs[i]; else data->bounds[i].ub = INF;')]),
 ('ub max','V',[(P,'data->bounds[i].ub = data->ubs[i];','data->bounds[i].ub = data->ubs[i] > 1e12 ? INF : data->ubs[i];')]),
 ('cols from 1','V',[(P,'for (int i = 0; i < data->n_cols; i++)','for (int i = 1; i < data->n_cols; i++)')]),
 ('cols rows','V',[(P,'for (int i = 0; i < data->n_cols; i++)','for (int i = 0; i < data->n_rows; i++)')]),
 ('tag swap','V',[(P,'UPDATE_TAG(data->col_tags[i], C_TAG_LB_INF);','UPDATE_TAG(data->col_tags[i], C_TAG_UB_INF);')]),
 ('tag pos','V',[(P,'if (IS_NEG_INF(data->lbs[i]))','if (IS_ABS_INF(data->ubs[i]))')]),
 ('tag else','V',[(P,'        if (IS_POS_INF(data->ubs[i]))','        else if (IS_POS_INF(data->ubs[i]))')]),
 ('row eq','V',[(T,'else if (lhs[i] == rhs[i])','else if (lhs[i] >= 0 && lhs[i] == rhs[i])')]),
 ('row else','V',[(T,'        if (IS_NEG_INF(lhs[i]))','        else if (IS_NEG_INF(lhs[i]))')]),
 ('row neg','V',[(T,'if (IS_NEG_INF(lhs[i]))','if (lhs[i] < -1e20 || rhs[i] < -1)')]),
 ('row le','V',[(T,'else if (lhs[i] == rhs[i])','else if (lhs[i] <= rhs[i])')]),
 ('row from 1','V',[(T,'for (int i = 0; i < n_rows; ++i)','for (int i = 1; i < n_rows; ++i)')]),
 ('row last','V',[(T,'for (int i = 0; i < n_rows; ++i)','for (int i = 0; i + 1 < n_rows; ++i)')]),
 ('row tol','V',[(T,'else if (lhs[i] == rhs[i])','else if (rhs[i] - lhs[i] < 2.5)')]),
 ('Ap','V',[(M,'A->p[i].end = Ap[i + 1];','A->p[i].end = Ap[i];')]),
 ('Ap last','V',[(M,'A->p[n_rows].end = Ap[n_rows];','A->p[n_rows].end = Ap[n_rows - 1];')]),
 ('Ax nrows','V',[(M,'memcpy(A->x, Ax, nnz * sizeof(double));','memcpy(A->x, Ax, (nnz - 1) * sizeof(double));')]),
 ('Ax ofs','V',[(M,'memcpy(A->x, Ax, nnz * sizeof(double));','memcpy(A->x, Ax + Ap[0], nnz * sizeof(double));')]),
 ('slot j','V',[(M,'AT->i[count[A->i[j]]] = i;','AT->i[count[A->i[j]]] = A->i[j];')]),
 ('slot x','V',[(M,'AT->x[count[A->i[j]]] = A->x[j];','AT->x[count[A->i[j]]] = A->x[i];')]),
 ('slot order','V',[(M,'            AT->i[count[A->i[j]]] = i;\n            count[A->i[j]]++;','            count[A->i[j]]++;\n            AT->i[count[A->i[j]]] = i;')]),
 ('slot 2','V',[(M,'            AT->i[count[A->i[j]]] = i;\n            count[A->i[j]]++;','            AT->i[count[A->i[j]]] = i;\n            count[A->i[j]] += 2;')]),
 ('sizes','V',[(M,'row_sizes[i] = A->p[i].end - A->p[i].start;','row_sizes[i] = A->p[i].end - A->p[0].start;')]),
 ('sizes x','V',[(P,'count_rows(AT, col_sizes)','count_rows(A, col_sizes)')]),
 ('scaled','V',[(T,'        if (IS_POS_INF(rhs[i]))\n','        if (lhs[i] == 0) lhs[i] = rhs[i];\n        if (IS_POS_INF(rhs[i]))\n')]),
 ('clip','V',[(T,'        if (IS_POS_INF(rhs[i]))\n        {','        if (rhs[i] >= 1e15)\n        {')]),
 ('q loop','Q',[(P,CP,'for (size_t k = 0; k < n_rows; ++k) lhs_copy[k] = lhs[k];')]),
 ('q loop2','Q',[(P,CP+'\n    memcpy(rhs_copy, rhs, n_rows * sizeof(double));','double *q = lhs_copy;\n    for (size_t k = 0; k < m; ++k) { *q++ = lhs[k]; rhs_copy[k] = rhs[k]; }')]),
 ('q order','Q',[(P,CP+'\n    memcpy(rhs_copy, rhs, n_rows * sizeof(double));','memcpy(rhs_copy, rhs, n_rows * sizeof(double));\n    memcpy(lhs_copy, lhs, m * sizeof(*lhs));')]),
 ('q bound','Q',[(P,'''        data->bounds[i].lb = data->lbs[i];
        data->bounds[i].ub = data->ubs[i];
''','''        const double l = data->lbs[i], u = data->ubs[i];
        Bound *b = &data->bounds[i];
        b->lb = l;
        b->ub = u;
'''),(P,'if (IS_NEG_INF(data->lbs[i]))','if (l == -INF)'),(P,'if (IS_POS_INF(data->ubs[i]))','if (IS_POS_INF(b->ub))')]),
 ('q tag','Q',[(T,'''            UPDATE_TAG(row_tags[i], R_TAG_RHS_INF);
        }
''','''            row_tags[i] = R_TAG_RHS_INF;
        }
''')]),
 ('q tags','Q',[(T,'''        if (IS_POS_INF(rhs[i]))
        {
            rhs[i] = INF;
            UPDATE_TAG(row_tags[i], R_TAG_RHS_INF);
        }

        if (IS_NEG_INF(lhs[i]))
        {
            lhs[i] = -INF;
            UPDATE_TAG(row_tags[i], R_TAG_LHS_INF);
        }
        else if (lhs[i] == rhs[i])
        {
            UPDATE_TAG(row_tags[i], R_TAG_EQ);
        }
''','''        RowTag t = R_TAG_NONE;
        const int up = IS_POS_INF(rhs[i]), lo = IS_NEG_INF(lhs[i]);
        if (up) { UPDATE_TAG(t, R_TAG_RHS_INF); }
        if (lo) { UPDATE_TAG(t, R_TAG_LHS_INF); }
        if (!up && !lo && lhs[i] == rhs[i]) { UPDATE_TAG(t, R_TAG_EQ); }
        row_tags[i] = t;
''')]),
 ('q slot','Q',[(M,'''            AT->x[count[A->i[j]]] = A->x[j];
            AT->i[count[A->i[j]]] = i;
            count[A->i[j]]++;
''','''            const int k = count[A->i[j]]++;
            AT->i[k] = i;
            AT->x[k] = A->x[j];
''')]),
 ('q slot2','Q',[(M,'''            AT->x[count[A->i[j]]] = A->x[j];
            AT->i[count[A->i[j]]] = i;
            count[A->i[j]]++;
''','''            const int col = A->i[j];
            const int k = count[col];
            AT->i[k] = i;
            AT->x[k] = A->x[j];
            count[col] = k + 1;
''')]),
 ('q while','Q',[(M,'''    for (int i = 0; i < n_rows; ++i)
    {
        A->p[i].start = Ap[i];
        A->p[i].end = Ap[i + 1];
    }
''','''    size_t i = 0;
    while (i != n_rows)
    {
        A->p[i].start = Ap[i];
        ++i;
        A->p[i - 1].end = Ap[i];
    }
''')]),
 ('q down','Q',[(M,'''    for (int i = 0; i < n_rows; ++i)
    {
        A->p[i].start = Ap[i];
        A->p[i].end = Ap[i + 1];
    }
''','''    for (int i = (int) n_rows - 1; i >= 0; --i)
    {
        A->p[i].end = Ap[i + 1];
        A->p[i].start = Ap[i];
    }
''')]),
 ('q one','Q',[(M,'''        A->p[i].end = Ap[i + 1];
    }
''','''        if (i > 0) A->p[i - 1].end = Ap[i];
    }
    if (n_rows > 0) A->p[n_rows - 1].end = Ap[n_rows];
''')]),
 ('q tag helper','Q',[(T,'RowTag *new_rowtags(','''static RowTag tag_of(double l, double r)
{
    RowTag t = 0;
    if (isinf(r) && r > 0) t |= R_TAG_RHS_INF;
    if (isinf(l) && l < 0) return t | R_TAG_LHS_INF;
    return l == r ? t | R_TAG_EQ : t;
}

RowTag *new_rowtags('''),(T,'''        if (IS_POS_INF(rhs[i]))
        {
            rhs[i] = INF;
            UPDATE_TAG(row_tags[i], R_TAG_RHS_INF);
        }

        if (IS_NEG_INF(lhs[i]))
        {
            lhs[i] = -INF;
            UPDATE_TAG(row_tags[i], R_TAG_LHS_INF);
        }
        else if (lhs[i] == rhs[i])
        {
            UPDATE_TAG(row_tags[i], R_TAG_EQ);
        }
''','''        row_tags[i] = tag_of(lhs[i], rhs[i]);
''')]),
 ('q copy helper','Q',[(P,'Presolver *new_presolver(const','''static double *dup_array(const double *src, size_t len)
{
    double *dst = (double *) ps_malloc(len, sizeof(double));
    if (dst) memcpy(dst, src, len * sizeof(double));
    return dst;
}

Presolver *new_presolver(const'''),(P,'lhs_copy = (double *) ps_malloc(n_rows, sizeof(double));','lhs_copy = dup_array(lhs, n_rows);'),
  (P,'c_copy = (double *) ps_malloc(n_cols, sizeof(double));','c_copy = dup_array(c, n);'),(P,CP+'\n',''),(P,'    memcpy(c_copy, c, n_cols * sizeof(double));\n','')]),
 ('q bounds split','Q',[(P,'''        data->bounds[i].ub = data->ubs[i];

''','''    }
    for (int i = 0; i < data->n_cols; i++)
    {
        data->bounds[i].ub = data->ubs[i];
''')]),
 ('q bounds rev','Q',[(P,'for (int i = 0; i < data->n_cols; i++)','for (int i = (int) data->n_cols - 1; i >= 0; i--)')]),
 ('q struct','Q',[(P,'''        data->bounds[i].lb = data->lbs[i];
        data->bounds[i].ub = data->ubs[i];
''','''        data->bounds[i] = (Bound){data->lbs[i], data->ubs[i]};
''')]),
 ('q coltag','Q',[(P,'''        if (IS_NEG_INF(data->lbs[i]))
        {
            UPDATE_TAG(data->col_tags[i], C_TAG_LB_INF);
        }

        if (IS_POS_INF(data->ubs[i]))
        {

            UPDATE_TAG(data->col_tags[i], C_TAG_UB_INF);
        }
''','''        data->col_tags[i] = (ColTag) ((IS_NEG_INF(data->lbs[i]) ? C_TAG_LB_INF : 0) |
                                      (IS_POS_INF(data->ubs[i]) ? C_TAG_UB_INF : 0));
''')]),
 ('q sizes','Q',[(M,'row_sizes[i] = A->p[i].end - A->p[i].start;','const RowRange *r = A->p + i;\n        row_sizes[i] = r->end - r->start;')]),
 ('q later bounds','Q',[(P,'    A = matrix_new_no_extra_space(','''    for (size_t k = 0; k < n; ++k)
    {
        bounds[k].lb = lbs[k];
        bounds[k].ub = ubs[k];
    }
    A = matrix_new_no_extra_space('''),(P,'''        data->bounds[i].lb = data->lbs[i];
        data->bounds[i].ub = data->ubs[i];
''','')]),
 ('q nothread','Q',[(P,'''    data->locks = new_locks''','''    assert(data->bounds);
    data->locks = new_locks''')]),
])
