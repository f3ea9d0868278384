import sys; import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from trial import run
P='src/core/Postsolver.c'; C='src/core/CoreTransformation.c'; H='include/core/CoreTransformations.h'
S='src/explorers/SimpleReductions.c'; O='src/explorers/StonCols.c'; D='src/explorers/DtonsEq.c'; L='src/explorers/Parallel_cols.c'; PR='src/explorers/Parallel_rows.c'
B='src/explorers/Primal_propagation.c'
BUGS=[
 ('forward replay','V',[(P,'for (int i = n_reductions - 1; i >= 0; --i)\n','for (int i = 0; i < n_reductions; ++i)\n')]),
 ('skip first','V',[(P,'for (int i = n_reductions - 1; i >= 0; --i)\n','for (int i = n_reductions - 1; i > 0; --i)\n')]),
 ('fix: z sign','V',[(P,'sol->z[k] = ck - aik * sol->y[i];','sol->z[k] = ck + aik * sol->y[i];')]),
 ('sub: no div','V',[(P,'    sol->x[k] /= aik;\n','')]),
 ('sub order','V',[(P,'    sol->z[k] = ck - aik * sol->y[i];\n    sol->x[k] /= aik;','    sol->x[k] /= aik;\n    sol->z[k] = ck - aik * sol->x[k];')]),
 ('parallel tags swapped','V',[(P,'    iVec_append(info->indices, (int) (cTag_j));\n    iVec_append(info->indices, (int) (cTag_k));','    iVec_append(info->indices, (int) (cTag_k));\n    iVec_append(info->indices, (int) (cTag_j));')]),
 ('parallel bounds swapped','V',[(P,'    dVec_append(info->vals, lb_k);\n    dVec_append(info->vals, ub_k);','    dVec_append(info->vals, ub_k);\n    dVec_append(info->vals, lb_k);')]),
 ('parallel call order','V',[(L,'postsolve_info, ub_j_old, lb_j_old,','postsolve_info, lb_j_old, ub_j_old,')]),
 ('parallel late','V',[(L,'                lb_j_old = bounds[j].lb;\n',''),(L,'                set_col_to_substituted(k,','                lb_j_old = bounds[j].lb;\n                set_col_to_substituted(k,')]),
 ('parallel new tag','V',[(L,'col_tag_j_old, col_tags[k]);','col_tags[j], col_tags[k]);')]),
 ('parallel ratio','V',[(P,'sol->z[k] = ratio * sol->z[j];','sol->z[k] = sol->z[j] / ratio;')]),
 ('parallel lb tol','V',[(P,'xk_val = ub_k;','xk_val = lb_k;')]),
 ('parallel tag test','V',[(P,'    if (!HAS_TAG(cTag_k, C_TAG_LB_INF) && lb_k >= xk_val + FEAS_TOL)','    if (!HAS_TAG(cTag_j, C_TAG_LB_INF) && lb_k >= xk_val + FEAS_TOL)')]),
 ('added row sign','V',[(D,'i, q, -A->x[subst_idx] / aik','i, q, A->x[subst_idx] / aik')]),
 ('dton y','V',[(D,'row->i, ck / aik)','row->i, ck * aik)')]),
 ('dton sub wrong row','V',[(D,'row->cols, row->vals, 2, rhs[row->i]','row->cols, row->vals, 2, rhs[k]')]),
 ('dton sub len','V',[(D,'row->cols, row->vals, 2, rhs[row->i]','row->cols, row->vals, 1, rhs[row->i]')]),
 ('stoncol ck','V',[(O,'save_retrieval_eq_to_ineq(postsolve_info, row->i, ck / Aik);','save_retrieval_eq_to_ineq(postsolve_info, row->i, Aik / ck);')]),
 ('stoncol after remove','V',[(O,'''    save_retrieval_sub_col(postsolve_info, k, row->cols, row->vals,
                           (size_t) *row->len, *row->rhs, row->i, 0.0);

    assert(!IS_ABS_INF(lb) && !HAS_TAG(*col_tag, C_TAG_LB_INF));

    /* remove coefficient from A */
    remove_coeff(row, k);
''','''    assert(!IS_ABS_INF(lb) && !HAS_TAG(*col_tag, C_TAG_LB_INF));

    /* remove coefficient from A */
    remove_coeff(row, k);
    save_retrieval_sub_col(postsolve_info, k, row->cols, row->vals,
                           (size_t) *row->len, *row->rhs, row->i, 0.0);
''')]),
 ('deleted row val','V',[(P,'    dVec_append(info->vals, val);\n    iVec_append(info->starts, (int) info->indices->len);','    dVec_append(info->vals, 0.0);\n    iVec_append(info->starts, (int) info->indices->len);')]),
 ('start before','V',[(P,'    dVec_append(info->vals, DUMMY_VALUE);\n    iVec_append(info->starts, (int) info->indices->len);','    iVec_append(info->starts, (int) info->indices->len);\n    dVec_append(info->vals, DUMMY_VALUE);\n    iVec_append(info->indices, j);')]),
 ('no starts','V',[(P,'    iVec_append(info->indices, row);\n    dVec_append(info->vals, val);\n    iVec_append(info->starts, (int) info->indices->len);','    iVec_append(info->indices, row);\n    dVec_append(info->vals, val);\n    if (val != 0) iVec_append(info->starts, (int) info->indices->len);')]),
 ('flag','V',[(C,'data->postsolve_info, col, new_lb, ub,\n                                           false','data->postsolve_info, col, new_lb, ub,\n                                           true')]),
 ('other bound','V',[(C,'data->postsolve_info, col, new_ub, lb,','data->postsolve_info, col, new_ub, new_ub,')]),
 ('batch count','V',[(C,'row_vals, row_len, 1);','row_vals, row_len, 2);')]),
 ('batch not closed','V',[(B,'    if (num_of_bound_changes > 0)','    if (num_of_bound_changes > 1)')]),
 ('batch count late','V',[(B,'''                    if (temp_status == REDUCED)
                    {
                        (*num_of_bounds_changed)++;
                    }

                    status |= temp_status;
                }
            }
            // ---------------------------------------------------------------------
            // if Aik < 0''','''                    if (temp_status == REDUCED && is_ub_inf)
                    {
                        (*num_of_bounds_changed)++;
                    }

                    status |= temp_status;
                }
            }
            // ---------------------------------------------------------------------
            // if Aik < 0''')]),
 ('batch unchanged','V',[(B,'''                                           new_ub, lb, true);

        return REDUCED;''','''                                           new_ub, lb, true);

        return UNCHANGED;''')]),
 ('batch deleted rows in','V',[(B,'    if (num_of_bound_changes > 0)','    if (num_of_bound_changes == 2) save_retrieval_eq_to_ineq(problem->constraints->state->postsolve_info, row->i, 0.0);\n    if (num_of_bound_changes > 0)')]),
 ('lhs as rhs','V',[(C,'len, new_lhs, other_row_idx, ratio, true);','len, new_lhs, other_row_idx, ratio, false);')]),
 ('side ratio','V',[(P,'    dVec_append(info->vals, new_side);\n    dVec_append(info->vals, ratio);','    dVec_append(info->vals, ratio);\n    dVec_append(info->vals, new_side);')]),
 ('inf bound','V',[(C,'data->postsolve_info, col, 1, constraints,\n','data->postsolve_info, col, 1, constraints,\n'),(C,'constraints->bounds[col].ub);\n\n    for','constraints->bounds[col].lb);\n\n    for')] if 0 else [(C,'constraints->bounds[col].ub);','constraints->bounds[col].lb);')]),
 ('inf flag','V',[(C,'postsolve_info, col, -1, constraints','postsolve_info, col, 1, constraints')]),
 ('inf side other','V',[(P,'? rhs[row] : lhs[row];','? rhs[row] : lhs[col];')]),
 ('inf min','V',[(P,'extreme_val = MAX(extreme_val, val);','extreme_val = MIN(extreme_val, val);')]),
 ('inf counter','V',[(P,'counter += row_len + 1;','counter += row_len;')]),
 ('bound z','V',[(P,'sol->y[i] += sol->z[j] / aij;','sol->y[i] -= sol->z[j] / aij;')]),
 ('bound z zero','V',[(P,'        sol->z[k] -= (vals[ii] / aij) * sol->z[j];\n    }\n\n    sol->z[j] = 0.0;','        sol->z[k] -= (vals[ii] / aij) * sol->z[j];\n    }\n')]),
 ('lhs y','V',[(P,'    sol->y[j] = cand_val;\n    sol->y[i] = 0.0;','    sol->y[j] = cand_val;')]),
 ('eq2ineq','V',[(P,'    sol->y[row] += val;','    sol->y[row] = val;')]),
 ('fixcol c','V',[(S,'postsolve_info, k, val, prob->obj->c[k], NULL','postsolve_info, k, val, 0.0, NULL')]),
 ('fix in obj first','V',[(C,'    set_col_to_fixed(col, col_tag, data->fixed_cols_to_delete);\n    save_retrieval_fixed_col(data->postsolve_info, col, val, ck, vals, rows,','    set_col_to_fixed(col, col_tag, data->fixed_cols_to_delete);\n    save_retrieval_fixed_col(data->postsolve_info, col, bounds[col].lb, ck, vals, rows,')]),
 ('fix rows','V',[(P,'retrieve_fix_col(sol, indices[start], vals[start], vals[start + 1],\n                             vals + start + 2, indices + start + 2, len);\n        }\n        else if (type == SUB_COL)','retrieve_fix_col(sol, indices[start], vals[start], vals[start + 1],\n                             vals + start + 2, indices + start + 1, len);\n        }\n        else if (type == SUB_COL)')]),
 ('batch index','V',[(P,'            i = j + 1;','            i = j;')]),
]
QUIET=[
 ('switch','Q',[(P,'if (type == FIXED_COL)\n        {\n            len','if (FIXED_COL == type)\n        {\n            len')]),
 ('helper extent','Q',[(P,'void save_retrieval_deleted_row(','static void finish(PostsolveInfo *info) { const size_t n = info->indices->len; iVec_append(info->starts, (int) n); }\nvoid save_retrieval_deleted_row('),(P,'    iVec_append(info->indices, row);\n    dVec_append(info->vals, val);\n    iVec_append(info->starts, (int) info->indices->len);','    dVec_append(info->vals, val);\n    iVec_append(info->indices, row);\n    finish(info);')]),
 ('pair helper','Q',[(P,'void save_retrieval_parallel_col(','static void put(PostsolveInfo *p, int a, double b) { iVec_append(p->indices, a); dVec_append(p->vals, b); }\nvoid save_retrieval_parallel_col('),(P,'''    iVec_append(info->indices, j);
    iVec_append(info->indices, k);
    iVec_append(info->indices, (int) (cTag_j));
    iVec_append(info->indices, (int) (cTag_k));
    iVec_append(info->indices, DUMMY_VALUE);
    dVec_append(info->vals, lb_j);
    dVec_append(info->vals, ub_j);
    dVec_append(info->vals, lb_k);
    dVec_append(info->vals, ub_k);
    dVec_append(info->vals, ratio);
''','''    put(info, j, lb_j); put(info, k, ub_j); put(info, (int) cTag_j, lb_k); put(info, (int) cTag_k, ub_k); put(info, DUMMY_VALUE, ratio);
''')]),
 ('append loop','Q',[(P,'    dVec_append_array(info->vals, coeffs, len);','    for (size_t q = 0; q < len; q++) dVec_append(info->vals, coeffs[q]);')]),
 ('accumulator','Q',[(P,'    sol->x[k] = rhs;\n    double aik = 0.0;','    double acc = rhs;\n    double aik = 0.0;'),(P,'        sol->x[k] -= vals[ii] * sol->x[cols[ii]];','        acc -= vals[ii] * sol->x[cols[ii]];'),(P,'    sol->x[k] /= aik;','    sol->x[k] = acc / aik;')]),
 ('pointer loop','Q',[(P,'''    for (int j = 0; j < len; ++j)
    {
        if (rows[j] != i)
        {
            assert(sol->y[rows[j]] != ROW_NOT_RETRIEVED);
            sol->y[i] -= (vals[j] / aik) * sol->y[rows[j]];
        }
    }''','''    const int *r = rows, *e = rows + len; const double *v = vals;
    for (; r != e; ++r, ++v)
    {
        if (*r == i) continue;
        sol->y[i] -= (*v / aik) * sol->y[*r];
    }''')]),
 ('reverse loop','Q',[(P,'''    for (int j = 0; j < len; ++j)
    {
        if (rows[j] != i)''','''    for (int j = len - 1; j >= 0; --j)
    {
        if (rows[j] != i)''')]),
 ('z local','Q',[(P,'    sol->y[i] += sol->z[j] / aij;','    const double zj = sol->z[j];\n    sol->y[i] += zj / aij;'),(P,'(vals[ii] / aij) * sol->z[j];\n    }','zj * (vals[ii] / aij);\n    }')]),
 ('find helper','Q',[(P,'void retrieve_bound_change(','static double coeff_of(const int *cols, const double *vals, int len, int j) { for (int q = 0; q < len; ++q) if (cols[q] == j) return vals[q]; return 1.0; }\nvoid retrieve_bound_change('),(P,'''    for (ii = 0; ii < len; ++ii)
    {
        if (cols[ii] == j)
        {
            aij = vals[ii];
            break;
        }
    }
    assert(ii != len && aij != 0.0);''','''    aij = coeff_of(cols, vals, len, j);''')]),
 ('while replay','Q',[(P,'for (int i = n_reductions - 1; i >= 0; --i)\n    {','int i = n_reductions; while (i-- > 0)\n    {')]),
 ('ternary inf','Q',[(P,'''        if (fix_to_pos_inf)
        {
            extreme_val = MAX(extreme_val, val);
        }
        else
        {
            extreme_val = MIN(extreme_val, val);
        }''','''        extreme_val = fix_to_pos_inf ? MAX(val, extreme_val) : MIN(val, extreme_val);''')]),
 ('count return','Q',[(B,'''                    if (temp_status == REDUCED)
                    {
                        (*num_of_bounds_changed)++;
                    }

                    status |= temp_status;
                }
            }
            // ---------------------------------------------------------------------
            // if Aik < 0''','''                    *num_of_bounds_changed += (temp_status == REDUCED) ? 1 : 0;
                    status |= temp_status;
                }
            }
            // ---------------------------------------------------------------------
            // if Aik < 0''')]),
 ('batch early ret','Q',[(B,'''    if (num_of_bound_changes > 0)
    {''','''    if (num_of_bound_changes == 0) return status;
    {''')]),
 ('locals parallel','Q',[(L,'save_retrieval_parallel_col(postsolve_info, ub_j_old, lb_j_old,\n                                            bounds[k].lb, bounds[k].ub, ratio, j, k,','const Bound *bk = &bounds[k];\n                save_retrieval_parallel_col(postsolve_info, ub_j_old, lb_j_old,\n                                            bk->lb, bk->ub, ratio, j, k,')]),
 ('record before','Q',[(O,'''    save_retrieval_eq_to_ineq(postsolve_info, row->i, ck / Aik);
    save_retrieval_sub_col(postsolve_info, k, row->cols, row->vals,
                           (size_t) *row->len, *row->rhs, row->i, 0.0);
    assert(!IS_ABS_INF(ub)''','''    const double yi = ck / Aik; const double b = *row->rhs; const int ri = row->i;
    save_retrieval_eq_to_ineq(postsolve_info, ri, yi);
    save_retrieval_sub_col(postsolve_info, k, row->cols, row->vals,
                           (size_t) *row->len, b, ri, 0.0);
    assert(!IS_ABS_INF(ub)''')]),
 ('deleted first','Q',[(H,'    UPDATE_TAG(*row_tag, R_TAG_INACTIVE);\n\n    save_retrieval_deleted_row(info, row, val);','    save_retrieval_deleted_row(info, row, val);\n    UPDATE_TAG(*row_tag, R_TAG_INACTIVE);')]),
 ('starts len','Q',[(P,'len = starts[i + 1] - start - 2;\n            assert(len > 1);\n            retrieve_sub_col','const int endd = starts[i + 1];\n            len = endd - (start + 2);\n            retrieve_sub_col')]),
 ('fix no-op','Q',[(P,'    sol->z[k] = ck - aik * sol->y[i];','    sol->z[k] = -(aik * sol->y[i]) + ck;')]),
 ('dton hoist','Q',[(D,'row->i, ck / aik)','row->i, y_del)'),(D,'    // postsolve information\n    save_retrieval_sub_col','    const double y_del = ck / aik;\n    save_retrieval_sub_col')]),
]
if __name__=='__main__': run('S01', QUIET if 'q' in sys.argv else BUGS if 'b' in sys.argv else BUGS+QUIET)
