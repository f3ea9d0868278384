import sys; import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from trial import run
N='src/explorers/StonCols.c'; S='src/explorers/SimpleReductions.c'; P='src/explorers/Primal_propagation.c'; T='src/core/CoreTransformation.c'; R='src/explorers/Parallel_rows.c'; C='src/explorers/Parallel_cols.c'
CA=open('/repo/'+S).read()
run('V04',[
 ('unfix ddca9ed','V',[(N,'(ck < 0 && Aik > 0 && not_at_ub)','(ck < 0 && Aik > 0 && impl_free_from_above)')]),
 ('unfix ddca9ed 2','V',[(N,'(ck < 0 && Aik < 0 && not_at_ub)','(ck < 0 && Aik < 0 && impl_free_from_above)')]),
 ('not_at wrong','V',[(N,'(ck < 0 && Aik < 0 && not_at_ub)','(ck < 0 && Aik < 0 && not_at_lb)')]),
 ('not_at sign','V',[(N,'bounds[k].ub - FEAS_TOL,','bounds[k].ub + FEAS_TOL,')]),
 ('impl ub cmp','V',[(T,'return (implied_ub - ub <= 0);','return (implied_ub - ub >= 0);')]),
 ('impl lb cmp','V',[(T,'return (lb - implied_lb <= 0);','return (implied_lb - ub >= 0);')]),
 ('impl ub n_inf','V',[(T,'''        if (act->n_inf_min == 0)
        {
            assert(!IS_ABS_INF(act->min) && !IS_ABS_INF(*row->rhs) &&
                   !IS_ABS_INF(lb));''','''        if (act->n_inf_max == 0)
        {
            assert(!IS_ABS_INF(act->min) && !IS_ABS_INF(*row->rhs) &&
                   !IS_ABS_INF(lb));''')]),
 ('impl ub n_inf1','V',[(T,'''        if (act->n_inf_min == 0)
        {
            assert(!IS_ABS_INF(act->min) && !IS_ABS_INF(*row->rhs) &&
                   !IS_ABS_INF(lb));''','''        if (act->n_inf_min <= 1)
        {
            assert(!IS_ABS_INF(act->min) && !IS_ABS_INF(*row->rhs) &&
                   !IS_ABS_INF(lb));''')]),
 ('gondzio tag','V',[(T,'else if (act->n_inf_min == 1 && HAS_TAG(col_tag, C_TAG_LB_INF))','else if (act->n_inf_min == 1)')]),
 ('gondzio count','V',[(T,'else if (act->n_inf_max == 1 && HAS_TAG(col_tag, C_TAG_LB_INF))','else if (HAS_TAG(col_tag, C_TAG_LB_INF))')]),
 ('gondzio side','V',[(T,'implied_ub = (*row->lhs - max_temp) / Aik;','implied_ub = (*row->rhs - max_temp) / Aik;')]),
 ('impl sign','V',[(T,'if (Aik > 0 && !HAS_TAG(*row->tag, R_TAG_RHS_INF))','if (!HAS_TAG(*row->tag, R_TAG_RHS_INF))')]),
 ('impl tag','Q',[(T,'if (Aik > 0 && !HAS_TAG(*row->tag, R_TAG_RHS_INF))','if (Aik > 0 && !HAS_TAG(*row->tag, R_TAG_LHS_INF))')]),
 ('impl init','V',[(T,'double implied_ub = INF;','double implied_ub = -INF;')]),
 ('impl tag early','V',[(T,'''    if (HAS_TAG(col_tag, C_TAG_UB_INF))
    {
        return true;''','''    if (HAS_TAG(col_tag, C_TAG_UB_HUGE))
    {
        return true;''')]),
 ('fix_col infeas','V',[(T,'(!is_lb_inf && val <= old_lb - FEAS_TOL)','(!is_lb_inf && val >= old_lb - FEAS_TOL)')]),
 ('fix_col tag','Q',[(T,'(!is_ub_inf && val >= old_ub + FEAS_TOL)','(!is_lb_inf && val >= old_ub + FEAS_TOL)')]),
 ('fix_col tol','V',[(T,'(!is_ub_inf && val >= old_ub + FEAS_TOL)','(!is_ub_inf && val >= old_ub - FEAS_TOL)')]),
 ('update_lb infeas','V',[(T,'if (!HAS_TAG(*col_tag, C_TAG_UB_INF) && new_lb >= ub + FEAS_TOL)','if (new_lb >= lb + FEAS_TOL && !HAS_TAG(*col_tag, C_TAG_UB_INF))')]),
 ('update_ub tol','V',[(T,'new_ub <= lb - FEAS_TOL)','new_ub <= lb + FEAS_TOL)')]),
 ('update_lb tag','Q',[(T,'if (!HAS_TAG(*col_tag, C_TAG_UB_INF) && new_lb >= ub + FEAS_TOL)','if (new_lb >= ub + FEAS_TOL)')]),
 ('chg rhs infeas','V',[(T,'*row->lhs >= new_rhs + FEAS_TOL','*row->lhs <= new_rhs + FEAS_TOL')]),
 ('chg lhs tag','Q',[(T,'if (!HAS_TAG(*row->tag, R_TAG_RHS_INF) && *row->rhs <= new_lhs - FEAS_TOL)','if (*row->rhs <= new_lhs - FEAS_TOL)')]),
 ('chg eq tag','V',[(T,'''    if (!HAS_TAG(*row->tag, R_TAG_LHS_INF) &&
        IS_EQUAL_FEAS_TOL(*row->lhs, *row->rhs))''','''    if (!HAS_TAG(*row->tag, R_TAG_LHS_INF) &&
        *row->lhs <= *row->rhs + FEAS_TOL)''')]),
 ('pr eq','V',[(R,'if (!IS_EQUAL_FEAS_TOL(remaining_row_new_rhs, other_row_rhs_scaled))','if (!IS_EQUAL_FEAS_TOL(remaining_row_new_rhs, other_row_rhs))')]),
 ('pr eq neg','V',[(R,'if (!IS_EQUAL_FEAS_TOL(remaining_row_new_rhs, other_row_rhs_scaled))','if (IS_EQUAL_FEAS_TOL(remaining_row_new_rhs, other_row_rhs_scaled))')]),
 ('pr infeas_rhs','V',[(R,'(ratio < 0 && remaining_row_new_rhs <= other_row_rhs_scaled - FEAS_TOL)','(ratio < 0 && remaining_row_new_rhs >= other_row_rhs_scaled + FEAS_TOL)')]),
 ('pr infeas_lhs','V',[(R,'(ratio < 0 && remaining_row_new_rhs >= other_row_lhs_scaled + FEAS_TOL)','(remaining_row_new_rhs >= other_row_lhs_scaled + FEAS_TOL)')]),
 ('pr infeas tag','V',[(R,'''            bool infeas_rhs =
                !is_rhs_inf_other_row &&''','''            bool infeas_rhs =
                !is_lhs_inf_other_row &&''')]),
 ('empty rows','V',[(S,'lhs[row] >= FEAS_TOL)','lhs[row] <= FEAS_TOL)')]),
 ('empty rows tag','Q',[(S,'(!HAS_TAG(rtags[row], R_TAG_RHS_INF) && rhs[row] <= -FEAS_TOL)','(rhs[row] <= -FEAS_TOL)')]),
 ('empty rows drop','V',[(S,'(!HAS_TAG(rtags[row], R_TAG_RHS_INF) && rhs[row] <= -FEAS_TOL)','(!HAS_TAG(rtags[row], R_TAG_RHS_INF | R_TAG_LHS_INF) && rhs[row] <= -FEAS_TOL)')]),
 ('close bounds','V',[(S,'else if (bounds[ii].lb > bounds[ii].ub + FEAS_TOL)','else if (bounds[ii].lb < bounds[ii].ub + FEAS_TOL)')]),
 ('redund lb/ub','V',[(P,'''            if (is_ub_implied_free(&col, acts, lhs, rhs, row_tags, A, col_tags,
                                   bounds))''','''            if (is_lb_implied_free(&col, acts, lhs, rhs, row_tags, A, col_tags,
                                   bounds))''')]),
 ('redund none','V',[(P,'''            if (is_lb_implied_free(&col, acts, lhs, rhs, row_tags, A, col_tags,
                                   bounds))''','''            if (!is_lb_implied_free(&col, acts, lhs, rhs, row_tags, A, col_tags,
                                   bounds))''')]),
 ('prop infeas lb','V',[(P,'if (new_lb >= ub + FEAS_TOL)','if (new_lb >= ub - 100 * FEAS_TOL)')]),
 ('prop infeas tag','Q',[(P,'''    if (!is_lb_inf)
    {
        assert(ABS(lb) != -INF);

        if (new_ub <= lb - FEAS_TOL)''','''    if (!is_ub_inf)
    {
        assert(ABS(lb) != -INF);

        if (new_ub <= lb - FEAS_TOL)''')]),
 ('eq side','V',[(N,'if (impl_free_from_above && impl_free_from_below)\n    {\n        save','if (impl_free_from_above || impl_free_from_below)\n    {\n        save')]),
 ('ineq both','V',[(N,'if (impl_free_from_above && impl_free_from_below)\n    {\n        double','if (impl_free_from_above)\n    {\n        double')]),
 ('eq above/below','V',[(N,'else if (impl_free_from_above)\n','else if (impl_free_from_below)\n')]),
 ('merge bound','V',[(C,'if (HAS_TAG((col_tags[j] | col_tags[k]), C_TAG_LB_INF))','if (HAS_TAG((col_tags[j] | col_tags[k]), C_TAG_UB_INF))')]),
 # refactorings
 ('R impl helper','Q',[(T,'return (implied_ub - ub <= 0);','const double gap = ub - implied_ub;\n    return !(gap < 0);')]),
 ('R impl direct','Q',[(T,'return (lb - implied_lb <= 0);','return implied_lb >= lb;')]),
 ('R fix_col nested','Q',[(T,'''    if ((!is_ub_inf && val >= old_ub + FEAS_TOL) ||
        (!is_lb_inf && val <= old_lb - FEAS_TOL))
    {
        return INFEASIBLE;
    }
''','''    if (!is_ub_inf)
    {
        const double over = val - old_ub;
        if (over >= FEAS_TOL)
            return INFEASIBLE;
    }
    if (!is_lb_inf && old_lb - val >= FEAS_TOL)
        return INFEASIBLE;
''')]),
 ('R pr ratio','Q',[(R,'''                ((ratio > 0 && remaining_row_new_rhs >= other_row_rhs_scaled + FEAS_TOL) ||
                 (ratio < 0 && remaining_row_new_rhs <= other_row_rhs_scaled - FEAS_TOL));''','''                (ratio > 0 ? remaining_row_new_rhs >= other_row_rhs_scaled + FEAS_TOL
                           : remaining_row_new_rhs <= other_row_rhs_scaled - FEAS_TOL);''')]),
 ('R empty','Q',[(S,'''        bool infeasible =
            (!HAS_TAG(rtags[row], R_TAG_LHS_INF) && lhs[row] >= FEAS_TOL) ||
            (!HAS_TAG(rtags[row], R_TAG_RHS_INF) && rhs[row] <= -FEAS_TOL);

        if (infeasible)''','''        bool ok = HAS_TAG(rtags[row], R_TAG_LHS_INF) || lhs[row] < FEAS_TOL;
        ok = ok && (HAS_TAG(rtags[row], R_TAG_RHS_INF) || -rhs[row] < FEAS_TOL);

        if (!ok)''')]),
 ('R close','Q',[(S,'else if (bounds[ii].lb > bounds[ii].ub + FEAS_TOL)','else if (bounds[ii].lb - bounds[ii].ub > FEAS_TOL)')]),
 ('R prop','Q',[(P,'if (new_lb >= ub + FEAS_TOL)','const double slack = ub - new_lb;\n        if (slack <= -FEAS_TOL)')]),
 ('R gondzio','Q',[(T,'implied_ub = (*row->lhs - max_temp) / Aik;','implied_ub = *row->lhs / Aik - max_temp / Aik;')]),
 ('R order','Q',[(N,'''        impl_free_from_above = implied_free_from_above_by_row(
            Aik, &const_row_view, bounds[k].lb, bounds[k].ub, col_tags[k], acts + i,
            col_tags, bounds);

        impl_free_from_below = implied_free_from_below_by_row(
            Aik, &const_row_view, bounds[k].lb, bounds[k].ub, col_tags[k], acts + i,
            col_tags, bounds);
''','''        impl_free_from_below = implied_free_from_below_by_row(
            Aik, &const_row_view, bounds[k].lb, bounds[k].ub, col_tags[k], acts + i,
            col_tags, bounds);
        impl_free_from_above = implied_free_from_above_by_row(
            Aik, &const_row_view, bounds[k].lb, bounds[k].ub, col_tags[k], acts + i,
            col_tags, bounds);
''')]),
])
