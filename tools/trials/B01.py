import sys; import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from trial import run
T='src/core/CoreTransformation.c'; S='src/explorers/SimpleReductions.c'; D='src/explorers/DtonsEq.c'; C='src/explorers/Parallel_cols.c'
P='src/explorers/Primal_propagation.c'; F='src/explorers/Simple_dual_fix.c'; N='src/explorers/StonCols.c'
run('B01',[
 ('ston lhs/rhs swapped','V',[(S,'''            if ((!rhs_inf && update_lb(constrs, k, rhs / aik,''','''            if ((!rhs_inf && update_lb(constrs, k, lhs / aik,''')]),
 ('ston neg not mirrored','V',[(S,'(!lhs_inf && update_ub(constrs, k, lhs / aik,\n                                       row HUGE_BOUND_IS_OK) == INFEASIBLE))\n            {\n                return INFEASIBLE;\n            }\n        }\n\n        // must','(!lhs_inf && update_lb(constrs, k, lhs / aik,\n                                       row HUGE_BOUND_IS_OK) == INFEASIBLE))\n            {\n                return INFEASIBLE;\n            }\n        }\n\n        // must')]),
 ('ston times aik','V',[(S,'update_lb(constrs, k, rhs / aik,','update_lb(constrs, k, rhs * aik,')]),
 ('dton ub subst','V',[(D,'double new_lb_cand = (rhs - aik * ub_subst) / aij;\n            status = update_lb','double new_lb_cand = (rhs - aik * lb_subst) / aij;\n            status = update_lb')]),
 ('dton quotient','V',[(D,'double new_ub_cand = (rhs - aik * lb_subst) / aij;','double new_ub_cand = (rhs - aij * lb_subst) / aik;')]),
 ('dton wrong tag','V',[(D,'''        if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
        {
            double new_lb_cand''','''        if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
        {
            double new_lb_cand''')]),
 ('dton only one','V',[(D,'''            double new_ub_cand = (rhs - aik * ub_subst) / aij;
            status = update_ub(constraints, stay, new_ub_cand,
                               i HUGE_BOUND_IS_NOT_OK);''','')]),
 ('dton early return','V',[(D,'''            if (status == INFEASIBLE ||
                HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
            {
                return status;
            }
        }

        if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
        {
            double new_ub_cand''','''            return status;
        }

        if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
        {
            double new_ub_cand''')]),
 ('dton rhs lhs','V',[(D,'            *rhs -= change;','            *rhs += change;')]),
 ('dton lhs tag','Q',[(D,'''        if (!HAS_TAG(rTag, R_TAG_RHS_INF))
        {
            *rhs -= change;''','''        if (!HAS_TAG(rTag, R_TAG_RHS_INF) || HAS_TAG(rTag, R_TAG_LHS_INF))
        {
            *rhs -= change;''')]),
 ('parcols neg not mirrored','V',[(C,'bounds[j].lb += bounds[k].ub * ratio','bounds[j].lb += bounds[k].lb * ratio')]),
 ('parcols ratio','V',[(C,'bounds[j].ub += bounds[k].ub * ratio','bounds[j].ub += bounds[k].ub / ratio')]),
 ('parcols minus','V',[(C,'bounds[j].ub += bounds[k].lb * ratio','bounds[j].ub -= bounds[k].lb * ratio')]),
 ('parcols tag','V',[(C,'''                    if (HAS_TAG(col_tags[j], C_TAG_UB_INF) ||
                        HAS_TAG(col_tags[k], C_TAG_LB_INF))''','''                    if (HAS_TAG(col_tags[j], C_TAG_UB_INF) ||
                        HAS_TAG(col_tags[k], C_TAG_UB_INF))''')]),
 ('parcols inf sign','V',[(C,'bounds[j].ub = INF;','bounds[j].ub = -INF;')]),
 ('prop min/max','V',[(P,'implied_ub = bounds[k].lb + (*row->rhs - act->min) / Aik;','implied_ub = bounds[k].lb + (*row->rhs - act->max) / Aik;')]),
 ('prop own bound','Q',[(P,'implied_lb = bounds[k].ub + (*row->rhs - act->min) / Aik;','implied_lb = bounds[k].lb + (*row->rhs - act->min) / Aik;')]),
 ('prop n_inf','V',[(P,'if (!is_rhs_inf && act->n_inf_min == 0)','if (!is_rhs_inf && act->n_inf_min <= 1)')]),
 ('prop rhs inf','V',[(P,'else if ((!is_rhs_inf || act->n_inf_max == 0) && act->n_inf_min == 1)','else if (act->n_inf_max == 0 || act->n_inf_min == 1)')]),
 ('prop gondzio whole activity','V',[(P,'compute_min_act_one_tag(row->vals, row->cols, *row->len, bounds, k);','act->min;')]),
 ('prop gondzio max','V',[(P,'compute_min_act_one_tag(row->vals, row->cols, *row->len, bounds, k);','compute_max_act_one_tag(row->vals, row->cols, *row->len, bounds, k);')]),
 ('prop margin wrong way','V',[(P,'new_lb -= BOUND_MARGINAL * ABS(new_lb);','new_lb += BOUND_MARGINAL * ABS(new_lb);')]),
 ('prop loosen','V',[(P,'''    if (is_ub_inf || (*finite_bound_tightening && (*ub - new_ub > FEAS_TOL * 1e4) &&
                      (*ub - new_ub > 1e-2 * ABS(*ub))))''','''    if (is_ub_inf || (*finite_bound_tightening && (ABS(*ub - new_ub) > FEAS_TOL * 1e4) &&
                      (ABS(*ub - new_ub) > 1e-2 * ABS(*ub))))'''),(P,'if ((is_ub_inf || implied_ub < bounds[k].ub) && !IS_HUGE(implied_ub))','if (!IS_HUGE(implied_ub))')]),
 ('prop fix lb','V',[(P,'fix_col(constraints, col, lb, prob->obj->c[col]);','fix_col(constraints, col, new_ub, prob->obj->c[col]);')]),
 ('update_lb loosens','V',[(T,'if (is_lb_inf || new_lb >= lb + FEAS_TOL)','if (is_lb_inf || new_lb <= lb + FEAS_TOL)')]),
 ('update_ub stores lb','V',[(T,'bounds[col].ub = new_ub;','bounds[col].lb = new_ub;')]),
 ('fixed lhs only ub sign','V',[(S,'lhs[row] -= contribution','lhs[row] += contribution')]),
 ('fixed rhs tag','V',[(S,'''            if (!HAS_TAG(row_tags[row], R_TAG_RHS_INF))
            {
                rhs[row] -= contribution;''','''            if (!HAS_TAG(row_tags[row], R_TAG_LHS_INF))
            {
                rhs[row] -= contribution;''')]),
 ('fixed contribution','V',[(S,'double contribution = vals[j] * ub;','double contribution = ub / vals[j];')]),
 ('stoncol eq above','V',[(N,'*row->rhs -= lb * Aik;','*row->rhs -= ub * Aik;')]),
 ('stoncol eq inf','V',[(N,'*row->rhs = INF;','*row->lhs = INF;')]),
 ('stoncol fix one side','V',[(N,'''    if (!HAS_TAG(*row->tag, R_TAG_RHS_INF))
    {
        *row->rhs -= Aik * val;
    }''','')]),
 ('stoncol fix sign','V',[(N,'*row->rhs -= Aik * val;','*row->rhs += Aik * val;')]),
 ('act inf wrong','V',[(S,'prob->constraints->rhs[row] = INF','prob->constraints->lhs[row] = INF')]),
 ('redundant bounds','V',[(P,'bounds[ii].lb = -INF;','bounds[ii].ub = -INF;')]),
 # refactorings
 ('dton helper','Q',[(D,'static inline PresolveStatus modify_bounds(','static inline double transferred(double rhs, double a, double b, double x)\n{\n    return (rhs - a * x) / b;\n}\n\nstatic inline PresolveStatus modify_bounds('),
    (D,'double new_ub_cand = (rhs - aik * lb_subst) / aij;','double new_ub_cand = transferred(rhs, aik, aij, lb_subst);')]),
 ('dton other formula','Q',[(D,'double new_ub_cand = (rhs - aik * lb_subst) / aij;','double r = aik / aij;\n            double new_ub_cand = rhs / aij - r * lb_subst;')]),
 ('dton sign by ratio','Q',[(D,'bool same_sign = (aik * aij > 0.0);','bool same_sign = (aik > 0.0) == (aij > 0.0);')]),
 ('parcols locals','Q',[(C,'bounds[j].lb += bounds[k].lb * ratio;','double d = ratio * bounds[k].lb;\n                        double o = bounds[j].lb;\n                        bounds[j].lb = o + d;')]),
 ('parcols nested tags','Q',[(C,'if (HAS_TAG((col_tags[j] | col_tags[k]), C_TAG_LB_INF))','if (HAS_TAG(col_tags[j], C_TAG_LB_INF) || HAS_TAG(col_tags[k], C_TAG_LB_INF))')]),
 ('parcols ratio inverse','Q',[(C,'if (ratio > 0)','if (ak0 * aj_vals[0] > 0)')]),
 ('prop slack','Q',[(P,'implied_ub = bounds[k].lb + (*row->rhs - act->min) / Aik;','double slack = *row->rhs - act->min;\n                implied_ub = slack / Aik + bounds[k].lb;')]),
 ('prop restruct','Q',[(P,'if (!is_rhs_inf && act->n_inf_min == 0)','bool usable = !is_rhs_inf && (act->n_inf_min < 1);\n    if (usable)')]),
 ('fixed loop ptr','Q',[(S,'double contribution = vals[j] * ub;','const double v = vals[j];\n            double contribution = v * bounds[col].lb;')]),
 ('fixed both','Q',[(S,'''            if (!HAS_TAG(row_tags[row], R_TAG_LHS_INF))
            {
                lhs[row] -= contribution;
            }

            if (!HAS_TAG(row_tags[row], R_TAG_RHS_INF))
            {
                rhs[row] -= contribution;
            }
''','''            const RowTag t = row_tags[row];
            lhs[row] = HAS_TAG(t, R_TAG_LHS_INF) ? lhs[row] : lhs[row] - contribution;
            rhs[row] = HAS_TAG(t, R_TAG_RHS_INF) ? rhs[row] : rhs[row] - contribution;
''')]),
 ('update_lb early return','Q',[(T,'''    // update the lower bound if it is tighter
    if (is_lb_inf || new_lb >= lb + FEAS_TOL)
    {''','''    if (!is_lb_inf && new_lb < lb + FEAS_TOL)
    {
        return UNCHANGED;
    }
    {''')]),
 ('stoncol val','Q',[(N,'*row->rhs -= lb * Aik;','double contrib = Aik * lb;\n        *row->rhs = *row->rhs - contrib;')]),
 ('ston nested','Q',[(S,'(!rhs_inf && update_lb(constrs, k, rhs / aik,','(!rhs_inf && update_lb(constrs, k, rhs * (1.0 / aik),')]),
])
