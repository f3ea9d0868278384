import sys; import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from trial import run
P='src/core/Problem.c'; D='src/explorers/DtonsEq.c'; S='src/explorers/SimpleReductions.c'; N='src/explorers/StonCols.c'; C='src/core/CoreTransformation.c'
FIX='obj->offset += obj->c[col] * value;'
run('O01',[
 ('fix sign','V',[(P,FIX,'obj->offset -= obj->c[col] * value;')]),
 ('fix lost','V',[(P,FIX,'obj->offset = obj->c[col] * value;')]),
 ('fix value','V',[(P,FIX,'obj->offset += value;')]),
 ('sub ratio','V',[(P,'double ratio = obj->c[k] / aik;','double ratio = obj->c[k] * aik;')]),
 ('sub sign','V',[(P,'obj->c[cols[i]] -= ratio * vals[i];','obj->c[cols[i]] += ratio * vals[i];')]),
 ('sub off sign','V',[(P,'obj->offset += rhs * ratio;','obj->offset -= rhs * ratio;')]),
 ('sub from 1','V',[(P,'for (int i = 0; i < len; ++i)\n    {\n        obj->c','for (int i = 1; i < len; ++i)\n    {\n        obj->c')]),
 ('sub last','V',[(P,'for (int i = 0; i < len; ++i)\n    {\n        obj->c','for (int i = 0; i < len - 1; ++i)\n    {\n        obj->c')]),
 ('sub late','V',[(P,'obj->c[cols[i]] -= ratio * vals[i];','obj->c[cols[i]] -= (obj->c[k] / aik) * vals[i];')]),
 ('off late','V',[(P,'obj->offset += rhs * ratio;','obj->offset += rhs * (obj->c[k] / aik);')]),
 ('sub index','V',[(P,'obj->c[cols[i]] -= ratio * vals[i];','obj->c[cols[i]] -= ratio * aik;')]),
 ('sub skip','V',[(P,'obj->c[cols[i]] -= ratio * vals[i];','if (cols[i] > k) obj->c[cols[i]] -= ratio * vals[i];')]),
 ('sub guard','V',[(P,'if (obj->c[k] == 0.0)\n    {','if (obj->c[k] <= 0.0)\n    {')]),
 ('sub no off','V',[(P,'    obj->offset += rhs * ratio;\n','    if (len > 2) obj->offset += rhs * ratio;\n')]),
 ('dt swapped','V',[(D,'(aij / aik) * obj->c[subst]','(aik / aij) * obj->c[subst]')]),
 ('dt swapped call','V',[(D,'subst_col_in_obj_dton(prob->obj, j, k, aik, aij, *row.rhs)','subst_col_in_obj_dton(prob->obj, j, k, aij, aik, *row.rhs)')]),
 ('dt cols','V',[(D,'subst_col_in_obj_dton(prob->obj, j, k, aik, aij, *row.rhs)','subst_col_in_obj_dton(prob->obj, k, j, aik, aij, *row.rhs)')]),
 ('dt sign','V',[(D,'obj->c[stay] -= (aij','obj->c[stay] += (aij')]),
 ('dt off aij','V',[(D,'(rhs / aik) * obj->c[subst]','(rhs / aij) * obj->c[subst]')]),
 ('dt off c','V',[(D,'(rhs / aik) * obj->c[subst]','(rhs / aik) * obj->c[stay]')]),
 ('dt skip','V',[(D,'subst_col_in_obj_dton(prob->obj, j, k, aik, aij, *row.rhs);','if (*row.rhs != 0.0) subst_col_in_obj_dton(prob->obj, j, k, aik, aij, *row.rhs);')]),
 ('dt moved off','V',[(D,'        subst_col_in_obj_dton(prob->obj, j, k, aik, aij, *row.rhs);','        if (col_sizes[k] > 1) subst_col_in_obj_dton(prob->obj, j, k, aik, aij, *row.rhs);')]),
 ('list late','V',[(S,'''        fix_var_in_obj(prob->obj, col, ub);
    }''','''        if (len > 0) fix_var_in_obj(prob->obj, col, ub);
    }''')]),
 ('list inner','V',[(S,'        if (ub == 0)\n        {\n            continue;','        if (ub <= 0)\n        {\n            continue;')]),
 ('list lb other','V',[(S,'fix_var_in_obj(prob->obj, col, ub);','fix_var_in_obj(prob->obj, row_tags[0] ? col : 0, ub);')]),
 ('empty ub lb','V',[(S,'val = bounds[k].ub;\n            bounds[k].lb = bounds[k].ub;','val = bounds[k].ub;\n            bounds[k].lb = bounds[k].ub;\n            *offset += c[k] * val;')]),
 ('empty skip','V',[(S,'*offset += c[k] * val;','if (c[k] > 0) *offset += c[k] * val;')]),
 ('empty other','V',[(S,'*offset += c[k] * val;','*offset += c[k] * bounds[i].lb;')]),
 ('empty rec','V',[(S,'save_retrieval_fixed_col(postsolve_info, k, val, prob->obj->c[k], NULL','save_retrieval_fixed_col(postsolve_info, k, c[k] < 0 ? bounds[k].lb : val, prob->obj->c[k], NULL')]),
 ('ston no off','V',[(N,'    fix_var_in_obj(obj, col->k, val);\n','    if (*row->len > 1) fix_var_in_obj(obj, col->k, val);\n')]),
 ('ston no off2','V',[(N,'    fix_var_in_obj(obj, col->k, val);\n','')]),
 ('ston side','V',[(N,'sub_var_in_obj(obj, row->vals, row->cols, *row->len, col->k, Aik, new_side);','sub_var_in_obj(obj, row->vals, row->cols, *row->len, col->k, Aik, *row->rhs);')]),
 ('ston eq after','V',[(N,'''    sub_var_in_obj(obj, row->vals, row->cols, *row->len, col->k, Aik, *row->rhs);
    UPDATE''','''    if (impl_free_from_above)
        sub_var_in_obj(obj, row->vals, row->cols, *row->len, col->k, Aik, *row->rhs);
    UPDATE''')]),
 ('ston twice','V',[(N,'    fix_var_in_obj(obj, col->k, val);\n','    fix_var_in_obj(obj, col->k, val);\n    fix_var_in_obj(obj, col->k, val);\n')]),
 ('fixcol not listed','V',[(C,'    set_col_to_fixed(col, col_tag, data->fixed_cols_to_delete);','    if (val > 0) set_col_to_fixed(col, col_tag, data->fixed_cols_to_delete);\n    else UPDATE_TAG(*col_tag, C_TAG_FIXED);')]),
 ('start','V',[(P,'obj->offset = 0.0;','obj->offset = 1.0;')]),
 # behaviour kept
 ('q temp','Q',[(P,FIX,'const double contribution = value * obj->c[col];\n    obj->offset = contribution + obj->offset;')]),
 ('q sub ptr','Q',[(P,'''    for (int i = 0; i < len; ++i)
    {
        obj->c[cols[i]] -= ratio * vals[i];
    }

    obj->offset += rhs * ratio;''','''    double *c = obj->c;
    obj->offset += ratio * rhs;
    for (int i = len - 1; i >= 0; --i)
    {
        const int j = cols[i];
        c[j] = c[j] - vals[i] * ratio;
    }''')]),
 ('q sub walk','Q',[(P,'''    for (int i = 0; i < len; ++i)
    {
        obj->c[cols[i]] -= ratio * vals[i];
    }
''','''    const int *end = cols + len;
    while (cols != end)
    {
        obj->c[*cols++] -= ratio * *vals++;
    }
''')]),
 ('q sub skip k','Q',[(P,'''        obj->c[cols[i]] -= ratio * vals[i];
    }
''','''        if (cols[i] == k) continue;
        obj->c[cols[i]] -= ratio * vals[i];
    }
    obj->c[k] = 0.0;
''')]),
 ('q sub invert','Q',[(P,'''    if (obj->c[k] == 0.0)
    {
        return;
    }
''','''    const double ck = obj->c[k];
    if (!(ck != 0.0))
    {
        return;
    }
''')]),
 ('q no guard','Q',[(P,'''    if (obj->c[k] == 0.0)
    {
        return;
    }
''','')]),
 ('q dt','Q',[(D,'''    obj->c[stay] -= (aij / aik) * obj->c[subst];
    obj->offset += (rhs / aik) * obj->c[subst];''','''    const double ratio = obj->c[subst] / aik;
    if (ratio == 0) return;
    obj->offset += rhs * ratio;
    obj->c[stay] -= aij * ratio;''')]),
 ('q list','Q',[(S,'''        if (ub == 0)
        {
            continue;
        }
''','''        const double lbv = bounds[col].lb;
        if (ub == 0 && lbv == ub)
        {
            continue;
        }
''')]),
 ('q list first','Q',[(S,'''        // fix variable in the objective
        fix_var_in_obj(prob->obj, col, ub);
''',''),(S,'''        vals = AT->x + AT->p[col].start;
        rows = AT->i''','''        fix_var_in_obj(prob->obj, col, ub);
        vals = AT->x + AT->p[col].start;
        rows = AT->i''')]),
 ('q list own loop','Q',[(S,'''        // fix variable in the objective
        fix_var_in_obj(prob->obj, col, ub);
    }
''','''    }
    for (i = 0; i < fixed_cols_to_delete->len; ++i)
    {
        const int k = fixed_cols_to_delete->data[i];
        prob->obj->offset += prob->obj->c[k] * bounds[k].lb;
    }
''')]),
 ('q list total','Q',[(S,'''        // fix variable in the objective
        fix_var_in_obj(prob->obj, col, ub);
    }
''','''        total += prob->obj->c[col] * ub;
    }
    prob->obj->offset += total;
'''),(S,'    int i, j, col, len, row;\n    int *rows;','    double total = 0.0;\n    int i, j, col, len, row;\n    int *rows;')]),
 ('q empty','Q',[(S,'''        // add offset to objective
        *offset += c[k] * val;
''',''),(S,'''        save_retrieval_fixed_col(postsolve_info, k, val, prob->obj->c[k], NULL, NULL,
                                 0);''','''        save_retrieval_fixed_col(postsolve_info, k, val, c[k], NULL, NULL, 0);
        fix_var_in_obj(prob->obj, k, val);''')]),
 ('q ston order','Q',[(N,'''    fix_var_in_obj(obj, col->k, val);
    save_retrieval_fixed_col(postsolve_info, col->k, val, obj->c[col->k], &Aik,
                             &row->i, 1);''','''    const double cost = obj->c[col->k];
    save_retrieval_fixed_col(postsolve_info, col->k, val, cost, &Aik, &row->i, 1);
    if (val != 0.0)
    {
        obj->offset += cost * val;
    }''')]),
 ('q ston merged sub','Q',[(N,'''        sub_var_in_obj(obj, row->vals, row->cols, *row->len, col->k, Aik, new_side);
        col->range->end = col->range->start;''','''        const double side = new_side;
        col->range->end = col->range->start;
        sub_var_in_obj(obj, row->vals, row->cols, *row->len, col->k, Aik, side);''')]),
])
