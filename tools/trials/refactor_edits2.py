from refactor_edits import e
PB, SC = 'src/core/Problem.c', 'src/explorers/StonCols.c'
e('obj fix fma', (PB, '''    obj->offset += obj->c[col] * value;
''', '''    const double cost = obj->c[col];
    double contribution = cost;
    contribution *= value;
    obj->offset = obj->offset + contribution;
'''))
e('obj sub reorder', (PB, '''    if (obj->c[k] == 0.0)
    {
        return;
    }

    double ratio = obj->c[k] / aik;
    for (int i = 0; i < len; ++i)
    {
        obj->c[cols[i]] -= ratio * vals[i];
    }

    obj->offset += rhs * ratio;
''', '''    double *c = obj->c;
    const double ck = c[k];
    if (ck != 0.0)
    {
        const double ratio = ck / aik;
        obj->offset += ratio * rhs;
        for (const int *j = cols; j != cols + len; ++j, ++vals)
        {
            c[*j] = c[*j] - *vals * ratio;
        }
    }
'''))
e('obj sub back', (PB, '''    for (int i = 0; i < len; ++i)
    {
        obj->c[cols[i]] -= ratio * vals[i];
    }
''', '''    while (len-- > 0)
    {
        int j = cols[len];
        obj->c[j] += -ratio * vals[len];
    }
'''))
e('obj free order', (PB, '''    free_constraints(problem->constraints);
    free_objective(problem->obj);
    PS_FREE(problem);
''', '''    Objective *obj = problem->obj;
    Constraints *con = problem->constraints;
    PS_FREE(problem);
    free_objective(obj);
    free_constraints(con);
'''))
e('ston eq helper', (SC, '''static PresolveStatus process_colston_eq(''', '''static void drop_column(ColView *col, unsigned tag)
{
    UPDATE_TAG(*col->tag, tag);
    *col->len = SIZE_INACTIVE_COL;
    col->range->end = col->range->start;
}

static PresolveStatus process_colston_eq('''), (SC, '''    UPDATE_TAG(*col->tag, C_TAG_SUBSTITUTED);
    *col->len = SIZE_INACTIVE_COL;
    col->range->end = col->range->start;

    // -----''', '''    drop_column(col, C_TAG_SUBSTITUTED);

    // -----'''))
e('ston eq order', (SC, '''    // substitute variable in objective and mark it as substituted
    // (note that we don't push it to list of substituted cols)
    sub_var_in_obj(obj, row->vals, row->cols, *row->len, col->k, Aik, *row->rhs);
    UPDATE_TAG(*col->tag, C_TAG_SUBSTITUTED);
    *col->len = SIZE_INACTIVE_COL;
    col->range->end = col->range->start;
''', '''    col->range->end = col->range->start;
    *col->len = SIZE_INACTIVE_COL;
    *col->tag |= C_TAG_SUBSTITUTED;
    sub_var_in_obj(obj, row->vals, row->cols, *row->len, col->k, Aik, *row->lhs);
'''))
e('ston eq save helper', (SC, '''static void handle_impl_free_from_above_eq(RowView''', '''static void save_relaxed(PostsolveInfo *info, const RowView *row, int k, double y)
{
    save_retrieval_eq_to_ineq(info, row->i, y);
    save_retrieval_sub_col(info, k, row->cols, row->vals, (size_t) *row->len,
                           *row->rhs, row->i, 0.0);
}

static void handle_impl_free_from_above_eq(RowView'''), (SC, '''    save_retrieval_eq_to_ineq(postsolve_info, row->i, ck / Aik);
    save_retrieval_sub_col(postsolve_info, k, row->cols, row->vals,
                           (size_t) *row->len, *row->rhs, row->i, 0.0);

    assert(!IS_ABS_INF(lb)''', '''    save_relaxed(postsolve_info, row, k, ck / Aik);

    assert(!IS_ABS_INF(lb)'''))
e('ston eq merged branches', (SC, '''    if (Aik > 0)
    {
        /* modify constraint */
        *row->rhs -= lb * Aik;
        *row->lhs = -INF;
        RESET_TAG(*row->tag, R_TAG_LHS_INF);

        /* update locks */
        update_locks_eq_to_ineq(locks, row->vals, row->cols, *row->len, true);

        /* update activity */
        if (act->n_inf_min == 0)
''', '''    const double shift = Aik * lb;
    const bool drops_lhs = Aik > 0;
    double *finite = drops_lhs ? row->rhs : row->lhs;
    double *relaxed = drops_lhs ? row->lhs : row->rhs;
    *finite = *finite - shift;
    *relaxed = drops_lhs ? -INF : INF;
    *row->tag &= ~R_TAG_EQ;
    RESET_TAG(*row->tag, (drops_lhs ? R_TAG_LHS_INF : R_TAG_RHS_INF));
    update_locks_eq_to_ineq(locks, row->vals, row->cols, *row->len, drops_lhs);

    if (Aik > 0)
    {
        /* update activity */
        if (act->n_inf_min == 0)
'''), (SC, '''        /* modify constraint and update locks */
        *row->lhs -= lb * Aik;
        *row->rhs = INF;
        RESET_TAG(*row->tag, R_TAG_RHS_INF);
        update_locks_eq_to_ineq(locks, row->vals, row->cols, *row->len, false);

        /* update activity */
        if (act->n_inf_max == 0)
        {
            act->max -= lb * Aik;
''', '''        /* update activity */
        if (act->n_inf_max == 0)
        {
            act->max -= shift;
'''))
e('ston fix order', (SC, '''    // fix variable in objective
    fix_var_in_obj(obj, col->k, val);
    save_retrieval_fixed_col(postsolve_info, col->k, val, obj->c[col->k], &Aik,
                             &row->i, 1);
''', '''    const double ck = obj->c[col->k];
    const int the_row = row->i;
    save_retrieval_fixed_col(postsolve_info, col->k, val, ck, &Aik, &the_row, 1);
    obj->offset += val * ck;
'''))
e('ston fix shift', (SC, '''    // update lhs
    if (!HAS_TAG(*row->tag, R_TAG_LHS_INF))
    {
        *row->lhs -= Aik * val;
    }

    // update rhs
    if (!HAS_TAG(*row->tag, R_TAG_RHS_INF))
    {
        *row->rhs -= Aik * val;
    }
''', '''    const double shift = Aik * val;
    const unsigned inf_sides = *row->tag & (R_TAG_LHS_INF | R_TAG_RHS_INF);
    if ((inf_sides & R_TAG_RHS_INF) == 0) *row->rhs = *row->rhs - shift;
    if ((inf_sides & R_TAG_LHS_INF) == 0) *row->lhs = *row->lhs - shift;
'''))
e('ston fix shift helper', (SC, '''static void fix_col_ston(double val,''', '''static void move_sides(RowView *row, double by)
{
    if (!HAS_TAG(*row->tag, R_TAG_LHS_INF)) *row->lhs += by;
    if (!HAS_TAG(*row->tag, R_TAG_RHS_INF)) *row->rhs += by;
}

static void fix_col_ston(double val,'''), (SC, '''    // update lhs
    if (!HAS_TAG(*row->tag, R_TAG_LHS_INF))
    {
        *row->lhs -= Aik * val;
    }

    // update rhs
    if (!HAS_TAG(*row->tag, R_TAG_RHS_INF))
    {
        *row->rhs -= Aik * val;
    }
''', '''    move_sides(row, -Aik * val);
'''))
e('ston dual cond', (SC, '''    if ((ck > 0 && Aik > 0 && is_lhs_inf) || (ck > 0 && Aik < 0 && is_rhs_inf))
    {
        if (is_lb_inf)
        {
            return UNBNDORINFEAS;
        }
''', '''    const bool up_safe = Aik > 0 ? is_rhs_inf : is_lhs_inf;
    const bool down_safe = Aik > 0 ? is_lhs_inf : is_rhs_inf;
    (void) up_safe;
    if (ck > 0 && down_safe)
    {
        if (is_lb_inf) return UNBNDORINFEAS;
'''))
CT = 'src/core/CoreTransformation.c'
e('fix infeas helper', (CT, '''PresolveStatus fix_col(Constraints''', '''static inline bool beyond(double val, Bound b, ColTag tag)
{
    const bool above = !HAS_TAG(tag, C_TAG_UB_INF) && b.ub + FEAS_TOL <= val;
    const bool below = !HAS_TAG(tag, C_TAG_LB_INF) && b.lb - FEAS_TOL >= val;
    return below || above;
}

PresolveStatus fix_col(Constraints'''), (CT, '''    if ((!is_ub_inf && val >= old_ub + FEAS_TOL) ||
        (!is_lb_inf && val <= old_lb - FEAS_TOL))
    {
        return INFEASIBLE;
    }
''', '''    if (beyond(val, bounds[col], *col_tag)) return INFEASIBLE;
'''))
e('fix infeas diff', (CT, '''    if ((!is_ub_inf && val >= old_ub + FEAS_TOL) ||
        (!is_lb_inf && val <= old_lb - FEAS_TOL))
    {
        return INFEASIBLE;
    }
''', '''    PresolveStatus verdict = REDUCED;
    if (!is_lb_inf && !(val > old_lb - FEAS_TOL)) verdict = INFEASIBLE;
    if (!is_ub_inf && !(val < old_ub + FEAS_TOL)) verdict = INFEASIBLE;
    if (verdict != REDUCED) return verdict;
'''))
e('fix order', (CT, '''    set_col_to_fixed(col, col_tag, data->fixed_cols_to_delete);
    save_retrieval_fixed_col(data->postsolve_info, col, val, ck, vals, rows,
                             (size_t) len);

    bool ub_update = (is_ub_inf || val != old_ub);
    bool lb_update = (is_lb_inf || val != old_lb);
    bounds[col].ub = val;
    bounds[col].lb = val;
''', '''    const bool ub_update = is_ub_inf ? true : val != old_ub;
    const bool lb_update = is_lb_inf ? true : val != old_lb;
    save_retrieval_fixed_col(data->postsolve_info, col, val, ck, vals, rows,
                             (size_t) len);
    bounds[col] = (Bound){.lb = val, .ub = val};
    set_col_to_fixed(col, col_tag, data->fixed_cols_to_delete);
'''))
e('fix inf shared', (CT, '''void fix_col_to_negative_inf(Constraints *constraints, int col)
{
    assert(!HAS_TAG(constraints->col_tags[col], C_TAG_INACTIVE));
''', '''static void drop_rows_of(Constraints *con, int col)
{
    const Matrix *AT = con->AT;
    const int *r = AT->i + AT->p[col].start, *stop = AT->i + AT->p[col].end;
    while (r < stop)
    {
        RowTag *tag = con->row_tags + *r;
        if ((*tag & R_TAG_INACTIVE) == 0)
        {
            set_row_to_inactive(*r, tag, con->state->rows_to_delete,
                                con->state->postsolve_info, 0.0);
        }
        ++r;
    }
}

void fix_col_to_negative_inf(Constraints *constraints, int col)
{
    assert(!HAS_TAG(constraints->col_tags[col], C_TAG_INACTIVE));
'''), (CT, '''    RowTag *row_tags = constraints->row_tags;
    PostsolveInfo *postsolve_info = constraints->state->postsolve_info;

    // store postsolve information
    save_retrieval_fixed_col_inf(postsolve_info, col, -1, constraints,
                                 constraints->bounds[col].ub);

    for (int i = AT->p[col].start; i < AT->p[col].end; ++i)
    {
        int row = AT->i[i];
        // if the same row has two variables that we fix to neg inf, it
        // will be marked as inactive when the second variable is fixed
        if (!HAS_TAG(row_tags[row], R_TAG_INACTIVE))
        {
            set_row_to_inactive(row, row_tags + row,
                                constraints->state->rows_to_delete, postsolve_info,
                                0.0);
        }
    }
''', '''    PostsolveInfo *postsolve_info = constraints->state->postsolve_info;

    // store postsolve information
    save_retrieval_fixed_col_inf(postsolve_info, col, -1, constraints,
                                 constraints->bounds[col].ub);
    drop_rows_of(constraints, col);
'''))
e('fix inf both', (CT, '''    constraints->bounds[col].lb = -INF;
    constraints->bounds[col].ub = -INF;
''', '''    Bound *b = &constraints->bounds[col];
    b->ub = b->lb = -INF;
'''))
e('lb early return', (CT, '''    // update the lower bound if it is tighter
    if (is_lb_inf || new_lb >= lb + FEAS_TOL)
    {
        const Matrix''', '''    if (!is_lb_inf && new_lb < lb + FEAS_TOL)
    {
        return UNCHANGED;
    }
    {
        const Matrix'''))
e('lb negate', (CT, '''    if (!HAS_TAG(*col_tag, C_TAG_UB_INF) && new_lb >= ub + FEAS_TOL)
    {
        return INFEASIBLE;
    }
''', '''    const double slack = ub - new_lb;
    if (slack <= -FEAS_TOL && (*col_tag & C_TAG_UB_INF) == 0)
    {
        return INFEASIBLE;
    }
'''))
e('lb tags first', (CT, '''        bounds[col].lb = new_lb;
        update_activities_bound_change(activities, constraints->A, bounds, vals,
                                       rows, len, lb, new_lb, !is_lb_inf, true,
                                       data->updated_activities HUGE_BOUND_ARG);
        REMOVE_TAG(*col_tag, C_TAG_LB_INF);
''', '''        REMOVE_TAG(*col_tag, C_TAG_LB_INF);
        bounds[col].lb = new_lb;
        update_activities_bound_change(activities, constraints->A, bounds, vals,
                                       rows, len, lb, new_lb, !is_lb_inf, true,
                                       data->updated_activities HUGE_BOUND_ARG);
'''))
e('lb records first', (CT, '''        save_retrieval_bound_change_no_row(data->postsolve_info, col, new_lb, ub,
                                           false);
        save_retrieval_bound_change_the_row(data->postsolve_info, row, row_cols,
                                            row_vals, row_len, 1);
''', ''), (CT, '''        bounds[col].lb = new_lb;
        update_activities_bound_change(''', '''        {
            const Matrix *A = constraints->A;
            const RowRange *r = A->p + row;
            save_retrieval_bound_change_no_row(data->postsolve_info, col, new_lb, ub,
                                               false);
            save_retrieval_bound_change_the_row(data->postsolve_info, row,
                                                A->i + r->start, A->x + r->start,
                                                (size_t) (r->end - r->start), 1);
        }
        bounds[col].lb = new_lb;
        update_activities_bound_change('''), (CT, '''        const Matrix *A = constraints->A;
        const double *row_vals = A->x + A->p[row].start;
        const int *row_cols = A->i + A->p[row].start;
        size_t row_len = (size_t) (A->p[row].end - A->p[row].start);

''', ''))
e('bound records helper', (CT, '''PresolveStatus update_lb(Constraints''', '''static void record_change(Constraints *con, int col, double now, double other,
                          bool is_ub, int row)
{
    const Matrix *A = con->A;
    PostsolveInfo *info = con->state->postsolve_info;
    int first = A->p[row].start;
    size_t n = (size_t) (A->p[row].end - first);
    save_retrieval_bound_change_no_row(info, col, now, other, is_ub);
    save_retrieval_bound_change_the_row(info, row, &A->i[first], &A->x[first], n, 1);
}

PresolveStatus update_lb(Constraints'''), (CT, '''        save_retrieval_bound_change_no_row(data->postsolve_info, col, new_lb, ub,
                                           false);
        save_retrieval_bound_change_the_row(data->postsolve_info, row, row_cols,
                                            row_vals, row_len, 1);
''', '''        record_change(constraints, col, new_lb, ub, false, row);
'''), (CT, '''        save_retrieval_bound_change_no_row(data->postsolve_info, col, new_ub, lb,
                                           true);

        save_retrieval_bound_change_the_row(data->postsolve_info, row, row_cols,
                                            row_vals, row_len, 1);
''', '''        record_change(constraints, col, new_ub, lb, true, row);
'''), (CT, '''        const Matrix *A = constraints->A;
        const double *row_vals = A->x + A->p[row].start;
        const int *row_cols = A->i + A->p[row].start;
        size_t row_len = (size_t) (A->p[row].end - A->p[row].start);

''', ''), (CT, '''        const Matrix *A = constraints->A;
        const double *row_vals = A->x + A->p[row].start;
        const int *row_cols = A->i + A->p[row].start;
        size_t row_len = (size_t) (A->p[row].end - A->p[row].start);

''', ''))
e('implied above product', (CT, '''    assert(!IS_NEG_INF(implied_ub));
    return (implied_ub - ub <= 0);
''', '''    return !(implied_ub > ub);
'''))
e('implied above side', (CT, '''    if (Aik > 0 && !HAS_TAG(*row->tag, R_TAG_RHS_INF))
    {
        // standard case
        if (act->n_inf_min == 0)
        {
            assert(!IS_ABS_INF(act->min) && !IS_ABS_INF(*row->rhs) &&
                   !IS_ABS_INF(lb));
            implied_ub = lb + (*row->rhs - act->min) / Aik;
        }
''', '''    if (Aik > 0 && !HAS_TAG(*row->tag, R_TAG_RHS_INF))
    {
        const double rest = *row->rhs - act->min;
        // standard case
        if (act->n_inf_min == 0)
        {
            implied_ub = rest / Aik + lb;
        }
'''))
e('implied above gondzio split', (CT, '''        else if (act->n_inf_min == 1 && HAS_TAG(col_tag, C_TAG_LB_INF))
        {
            double min_temp''', '''        else if (act->n_inf_min > 1)
        {
            return false;
        }
        else if (HAS_TAG(col_tag, C_TAG_LB_INF))
        {
            double min_temp'''))
e('implied above early', (CT, '''    assert(!IS_POS_INF(ub) && Aik != 0);
    double implied_ub = INF;
''', '''    double implied_ub = INF;
    const unsigned side = Aik > 0 ? R_TAG_RHS_INF : R_TAG_LHS_INF;
    if (HAS_TAG(*row->tag, side)) return ub == INF;
'''))
e('rhs locks helper', (CT, '''PresolveStatus change_rhs_of_ineq(RowView''', '''static void lock_row(Lock *locks, const RowView *row, double sign)
{
    for (int q = *row->len - 1; q >= 0; --q)
    {
        Lock *l = locks + row->cols[q];
        *(sign * row->vals[q] > 0 ? &l->up : &l->down) += 1;
    }
}

PresolveStatus change_rhs_of_ineq(RowView'''), (CT, '''    if (is_rhs_inf)
    {
        for (size_t i = 0; i < len; ++i)
        {
            if (row->vals[i] > 0)
            {
                locks[row->cols[i]].up++;
            }
            else
            {
                locks[row->cols[i]].down++;
            }
        }
    }
''', '''    if (is_rhs_inf) lock_row(locks, row, 1.0);
'''))
e('rhs eq var', (CT, '''    *row->rhs = new_rhs;
    REMOVE_TAG(*row->tag, R_TAG_RHS_INF);

    // check if the row becomes an equality constraint
    if (!HAS_TAG(*row->tag, R_TAG_LHS_INF) &&
        IS_EQUAL_FEAS_TOL(*row->lhs, *row->rhs))
    {
        *row->rhs = *row->lhs;
        UPDATE_TAG(*row->tag, R_TAG_EQ);
''', '''    RowTag tag = *row->tag;
    REMOVE_TAG(tag, R_TAG_RHS_INF);
    const bool becomes_eq =
        !HAS_TAG(tag, R_TAG_LHS_INF) && IS_EQUAL_FEAS_TOL(*row->lhs, new_rhs);
    *row->rhs = becomes_eq ? *row->lhs : new_rhs;
    if (becomes_eq) UPDATE_TAG(tag, R_TAG_EQ);
    *row->tag = tag;

    if (becomes_eq)
    {
'''))
e('rhs record first', (CT, '''    // update row tag and the actual rhs
    *row->rhs = new_rhs;
''', '''    save_retrieval_rhs_or_lhs_change(postsolve_info, row->i, row->vals, row->cols,
                                     len, new_rhs, other_row_idx, ratio, false);

    // update row tag and the actual rhs
    *row->rhs = new_rhs;
'''), (CT, '''    // dual postsolve
    save_retrieval_rhs_or_lhs_change(postsolve_info, row->i, row->vals, row->cols,
                                     len, new_rhs, other_row_idx, ratio, false);
''', ''))
SR, SD, PC = 'src/explorers/SimpleReductions.c', 'src/explorers/Simple_dual_fix.c', 'src/explorers/Parallel_cols.c'
e('sr fixed inner helper', (SR, '''void delete_fixed_cols_from_problem(Problem *prob)
{''', '''static void move_row(const Constraints *con, int row, double by)
{
    RowTag tag = con->row_tags[row];
    Activity *act = &con->state->activities[row];
    if (!HAS_TAG(tag, R_TAG_RHS_INF)) con->rhs[row] -= by;
    if (!HAS_TAG(tag, R_TAG_LHS_INF)) con->lhs[row] -= by;
    if (act->n_inf_min == 0) act->min -= by;
    if (act->n_inf_max == 0) act->max -= by;
}

void delete_fixed_cols_from_problem(Problem *prob)
{'''), (SR, '''            double contribution = vals[j] * ub;

            if (!HAS_TAG(row_tags[row], R_TAG_LHS_INF))
            {
                lhs[row] -= contribution;
            }

            if (!HAS_TAG(row_tags[row], R_TAG_RHS_INF))
            {
                rhs[row] -= contribution;
            }

            // not necessary to update n_inf_min and n_in_max since a fixed
            // variable has lb = ub = finite value so it doesn't contribute with
            // infinite bounds to the activity
            if (activities[row].n_inf_max == 0)
            {
                activities[row].max -= contribution;
            }

            if (activities[row].n_inf_min == 0)
            {
                activities[row].min -= contribution;
            }
''', '''            move_row(constraints, row, ub * vals[j]);
'''))
e('sr fixed nested if', (SR, '''        double ub = bounds[col].ub;
        if (ub == 0)
        {
            continue;
        }

        vals =''', '''        double ub = bounds[col].lb;
        if (ub == 0) continue;
        fix_var_in_obj(prob->obj, col, ub);

        vals ='''), (SR, '''        // fix variable in the objective
        fix_var_in_obj(prob->obj, col, ub);
''', ''))
e('sr fixed pointers', (SR, '''        for (j = 0; j < len; ++j)
        {
            row = rows[j];

            // When a singleton row''', '''        for (j = len - 1; j >= 0; --j)
        {
            row = *(rows + j);

            // When a singleton row'''), (SR, '''            if (!HAS_TAG(row_tags[row], R_TAG_LHS_INF))
            {
                lhs[row] -= contribution;
            }

            if (!HAS_TAG(row_tags[row], R_TAG_RHS_INF))
            {
                rhs[row] -= contribution;
            }
''', '''            const RowTag tag = row_tags[row];
            if (!(tag & R_TAG_LHS_INF)) lhs[row] += -contribution;
            if (!(tag & R_TAG_RHS_INF)) rhs[row] += -contribution;
'''))
e('sr stonrow values', (SR, '''        if (fix_col(constrs, k, rhs / aik, prob->obj->c[k]) == INFEASIBLE)
        {
            return INFEASIBLE;
        }
''', '''        const double xk = lhs / aik;
        const double ck = prob->obj->c[k];
        PresolveStatus st = fix_col(constrs, k, xk, ck);
        if (st == INFEASIBLE) return st;
'''), (SR, '''        save_retrieval_added_rows(postsolve_info, row, rows, vals, len, aik);
        save_retrieval_deleted_row(postsolve_info, row, prob->obj->c[k] / aik);
''', '''        save_retrieval_added_rows(postsolve_info, row, rows, vals, len, aik);
        save_retrieval_deleted_row(postsolve_info, row, ck / aik);
'''))
e('sr stonrow ineq', (SR, '''        if (aik > 0)
        {
            if ((!rhs_inf && (update_ub(constrs, k, rhs / aik,
                                        row HUGE_BOUND_IS_OK) == INFEASIBLE)) ||
                (!lhs_inf && (update_lb(constrs, k, lhs / aik,
                                        row HUGE_BOUND_IS_OK) == INFEASIBLE)))
            {
                return INFEASIBLE;
            }
        }
        else
        {
            if ((!rhs_inf && update_lb(constrs, k, rhs / aik,
                                       row HUGE_BOUND_IS_OK) == INFEASIBLE) ||
                (!lhs_inf && update_ub(constrs, k, lhs / aik,
                                       row HUGE_BOUND_IS_OK) == INFEASIBLE))
            {
                return INFEASIBLE;
            }
        }
''', '''        const bool flip = aik < 0;
        PresolveStatus st = UNCHANGED;
        if (!rhs_inf)
        {
            const double b = rhs / aik;
            st = flip ? update_lb(constrs, k, b, row HUGE_BOUND_IS_OK)
                      : update_ub(constrs, k, b, row HUGE_BOUND_IS_OK);
            if (st == INFEASIBLE) return st;
        }
        if (!lhs_inf)
        {
            const double b = lhs / aik;
            st = flip ? update_ub(constrs, k, b, row HUGE_BOUND_IS_OK)
                      : update_lb(constrs, k, b, row HUGE_BOUND_IS_OK);
            if (st == INFEASIBLE) return st;
        }
'''))
e('sr stonrow sorted', (SR, '''        if (aik > 0)
        {
            if ((!rhs_inf && (update_ub(constrs, k, rhs / aik,
                                        row HUGE_BOUND_IS_OK) == INFEASIBLE)) ||
                (!lhs_inf && (update_lb(constrs, k, lhs / aik,
                                        row HUGE_BOUND_IS_OK) == INFEASIBLE)))
            {
                return INFEASIBLE;
            }
        }
        else
        {
            if ((!rhs_inf && update_lb(constrs, k, rhs / aik,
                                       row HUGE_BOUND_IS_OK) == INFEASIBLE) ||
                (!lhs_inf && update_ub(constrs, k, lhs / aik,
                                       row HUGE_BOUND_IS_OK) == INFEASIBLE))
            {
                return INFEASIBLE;
            }
        }
''', '''        double above = (aik > 0 ? rhs : lhs) / aik;
        double below = (aik > 0 ? lhs : rhs) / aik;
        bool has_above = aik > 0 ? !rhs_inf : !lhs_inf;
        bool has_below = aik > 0 ? !lhs_inf : !rhs_inf;
        if (has_above &&
            update_ub(constrs, k, above, row HUGE_BOUND_IS_OK) == INFEASIBLE)
            return INFEASIBLE;
        if (has_below &&
            update_lb(constrs, k, below, row HUGE_BOUND_IS_OK) == INFEASIBLE)
            return INFEASIBLE;
'''))
e('sr activity form', (SR, '''        if (act->n_inf_min == 0 && act->min >= rhs + FEAS_TOL)
        {
            return R_TAG_INFEAS;
        }
        else if (act->n_inf_max == 0 && act->max <= rhs + FEAS_TOL)
        {
            UPDATE_TAG(return_tag, R_TAG_RHS_INF);
        }
''', '''        const double limit = rhs + FEAS_TOL;
        if (act->n_inf_min == 0 && limit <= act->min) return R_TAG_INFEAS;
        const bool redundant = act->n_inf_max == 0 && !(act->max > limit);
        return_tag |= redundant ? R_TAG_RHS_INF : R_TAG_NONE;
'''))
e('sr activity diff', (SR, '''        if (act->n_inf_max == 0 && act->max <= lhs - FEAS_TOL)
        {
            return R_TAG_INFEAS;
        }
''', '''        if (act->n_inf_max == 0)
        {
            const double gap = lhs - act->max;
            if (gap >= FEAS_TOL) return R_TAG_INFEAS;
        }
        if (0)
        {
        }
'''))
e('sd switch', (SD, '''    if (ck > 0 && lock.down == 0)
    {
        if (HAS_TAG(col_tag, C_TAG_LB_INF))
        {
            return UNBNDORINFEAS;
        }

        assert(!IS_ABS_INF(lb));
        fix_col(constraints, col, lb, ck);
        return UNCHANGED;
    }

    // ---------------------------------------------------
    // see if we can fix the variable to its upper bound
    // ---------------------------------------------------
    if (ck < 0 && lock.up == 0)
    {
        if (ck != 0 && HAS_TAG(col_tag, C_TAG_UB_INF))
        {
            return UNBNDORINFEAS;
        }

        assert(!IS_ABS_INF(ub));
        fix_col(constraints, col, ub, ck);
        return UNCHANGED;
    }
''', '''    if (ck != 0)
    {
        const bool to_lb = ck > 0;
        if ((to_lb ? lock.down : lock.up) != 0) return UNCHANGED;
        if (HAS_TAG(col_tag, (to_lb ? C_TAG_LB_INF : C_TAG_UB_INF)))
        {
            return UNBNDORINFEAS;
        }
        fix_col(constraints, col, to_lb ? lb : ub, ck);
        return UNCHANGED;
    }
'''))
e('sd zero cost', (SD, '''        if (lock.down == 0)
        {
            if (HAS_TAG(col_tag, C_TAG_LB_INF))
            {
                iVec_append(cols_to_inf, -col);
            }
            else
            {
                assert(!IS_ABS_INF(lb));
                fix_col(constraints, col, lb, ck);
            }
            return UNCHANGED;
        }

        if (lock.up == 0)
        {
            if (HAS_TAG(col_tag, C_TAG_UB_INF))
            {
                iVec_append(cols_to_inf, col);
            }
            else
            {
                assert(!IS_ABS_INF(ub));
                fix_col(constraints, col, ub, ck);
            }
            return UNCHANGED;
        }
''', '''        const bool down_ok = lock.down == 0;
        if (!down_ok && lock.up != 0) return UNCHANGED;
        const bool unbounded = HAS_TAG(col_tag, (down_ok ? C_TAG_LB_INF : C_TAG_UB_INF));
        if (!unbounded)
            fix_col(constraints, col, down_ok ? lb : ub, 0.0);
        else
            iVec_append(cols_to_inf, down_ok ? -col : col);
'''))
e('sd inf dir', (SD, '''        if (col < 0)
        {
            fix_col_to_negative_inf(constraints, -col);
        }
        else if (col > 0)
        {
            fix_col_to_positive_inf(constraints, col);
        }
        else
        {
            assert(col == 0);
            assert(locks[col].up == 0 || locks[col].down == 0);
            if (locks[col].down == 0)
            {
                fix_col_to_negative_inf(constraints, col);
            }
            else if (locks[col].up == 0)
            {
                fix_col_to_positive_inf(constraints, col);
            }
        }
''', '''        const bool down = col < 0 || (col == 0 && locks[0].down == 0);
        if (down)
        {
            fix_col_to_negative_inf(constraints, -col);
            continue;
        }
        fix_col_to_positive_inf(constraints, col);
'''))
e('pc ratio helper', (PC, '''                if (ratio > 0)
                {
                    // update lb
                    if (HAS_TAG((col_tags[j] | col_tags[k]), C_TAG_LB_INF))
                    {
                        bounds[j].lb = -INF;
                        UPDATE_TAG(col_tags[j], C_TAG_LB_INF);
                    }
                    else
                    {
                        assert(!IS_ABS_INF(bounds[j].lb) &&
                               !IS_ABS_INF(bounds[k].lb));
                        bounds[j].lb += bounds[k].lb * ratio;
                    }
''', '''                if (ratio > 0)
                {
                    // update lb
                    const bool lb_gone = HAS_TAG(col_tags[j], C_TAG_LB_INF) ||
                                         HAS_TAG(col_tags[k], C_TAG_LB_INF);
                    if (lb_gone) UPDATE_TAG(col_tags[j], C_TAG_LB_INF);
                    bounds[j].lb = lb_gone ? -INF : ratio * bounds[k].lb + lb_j_old;
'''))
e('pc old bound', (PC, '''                lb_j_old = bounds[j].lb;
                ub_j_old = bounds[j].ub;
                col_tag_j_old = col_tags[j];
''', '''                const Bound old = bounds[j];
                col_tag_j_old = col_tags[j];
                lb_j_old = old.lb;
                ub_j_old = old.ub;
'''))
e('pc save first', (PC, '''                // ---------------------------------------------------------------------
                //                  mark col as substituted
                // ---------------------------------------------------------------------
                set_col_to_substituted(k, col_tags + k, sub_cols_to_delete);
                save_retrieval_parallel_col(postsolve_info, ub_j_old, lb_j_old,
                                            bounds[k].lb, bounds[k].ub, ratio, j, k,
                                            col_tag_j_old, col_tags[k]);
''', '''                const Bound *bk = bounds + k;
                const double r = ak0 / aj_vals[0];
                set_col_to_substituted(k, col_tags + k, sub_cols_to_delete);
                save_retrieval_parallel_col(postsolve_info, ub_j_old, lb_j_old,
                                            bk->lb, bk->ub, r, j, k, col_tag_j_old,
                                            col_tags[k]);
'''))
e('pc cond', (PC, '''                if (ck > ratio * cj)
                {
                    if (ratio > 0)
                    {
                        fix_xk_to_lower = HAS_TAG(col_tags[j], C_TAG_UB_INF);
                        fix_xj_to_upper = HAS_TAG(col_tags[k], C_TAG_LB_INF);
                    }
                    else
                    {
                        fix_xk_to_lower = HAS_TAG(col_tags[j], C_TAG_LB_INF);
                        fix_xj_to_lower = HAS_TAG(col_tags[k], C_TAG_LB_INF);
                    }
                }
''', '''                const double diff = ck - ratio * cj;
                if (diff > 0)
                {
                    const bool k_lb_inf = HAS_TAG(col_tags[k], C_TAG_LB_INF);
                    fix_xk_to_lower = HAS_TAG(
                        col_tags[j], (ratio > 0 ? C_TAG_UB_INF : C_TAG_LB_INF));
                    fix_xj_to_upper = ratio > 0 && k_lb_inf;
                    fix_xj_to_lower = !(ratio > 0) && k_lb_inf;
                }
'''))
e('pc fix helper', (PC, '''                if (fix_xk_to_lower)
                {
                    if (HAS_TAG(col_tags[k], C_TAG_LB_INF))
                    {
                        return UNBNDORINFEAS;
                    }

                    assert(!HAS_TAG(col_tags[k], C_TAG_INACTIVE));
                    assert(!IS_ABS_INF(bounds[k].lb));
                    fix_col(constraints, k, bounds[k].lb, ck);
                    continue;
                }
                else if (fix_xk_to_upper)
                {
                    if (HAS_TAG(col_tags[k], C_TAG_UB_INF))
                    {
                        return UNBNDORINFEAS;
                    }

                    assert(!HAS_TAG(col_tags[k], C_TAG_INACTIVE));
                    assert(!IS_ABS_INF(bounds[k].ub));
                    fix_col(constraints, k, bounds[k].ub, ck);
                    continue;
                }
''', '''                if (fix_xk_to_lower || fix_xk_to_upper)
                {
                    const ColTag missing =
                        fix_xk_to_lower ? C_TAG_LB_INF : C_TAG_UB_INF;
                    if ((col_tags[k] & missing) != 0) return UNBNDORINFEAS;
                    const double val = fix_xk_to_lower ? bounds[k].lb : bounds[k].ub;
                    fix_col(constraints, k, val, ck);
                    continue;
                }
'''))
DT, PP, AC, LK = 'src/explorers/DtonsEq.c', 'src/explorers/Primal_propagation.c', 'src/core/Activity.c', 'src/core/Locks.c'
e('dt modify unified', (DT, '''    if (same_sign)
    {
        if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
        {
            double new_ub_cand = (rhs - aik * lb_subst) / aij;
            status = update_ub(constraints, stay, new_ub_cand,
                               i HUGE_BOUND_IS_NOT_OK);

            if (status == INFEASIBLE ||
                HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
            {
                return status;
            }
        }

        if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
        {
            double new_lb_cand = (rhs - aik * ub_subst) / aij;
            status = update_lb(constraints, stay, new_lb_cand,
                               i HUGE_BOUND_IS_NOT_OK);
        }
    }
    else
    {
        if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
        {
            double new_lb_cand = (rhs - aik * lb_subst) / aij;
            status = update_lb(constraints, stay, new_lb_cand,
                               i HUGE_BOUND_IS_NOT_OK);

            if (status == INFEASIBLE ||
                HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
            {
                return status;
            }
        }

        if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
        {
            double new_ub_cand = (rhs - aik * ub_subst) / aij;
            status = update_ub(constraints, stay, new_ub_cand,
                               i HUGE_BOUND_IS_NOT_OK);
        }
    }
''', '''    if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
    {
        const double cand = (rhs - aik * lb_subst) / aij;
        status = same_sign ? update_ub(constraints, stay, cand, i HUGE_BOUND_IS_NOT_OK)
                           : update_lb(constraints, stay, cand, i HUGE_BOUND_IS_NOT_OK);
        if (status == INFEASIBLE) return status;
        if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED)) return status;
    }
    if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
    {
        const double cand = rhs / aij - ub_subst * (aik / aij);
        if (same_sign)
            status = update_lb(constraints, stay, cand, i HUGE_BOUND_IS_NOT_OK);
        else
            status = update_ub(constraints, stay, cand, i HUGE_BOUND_IS_NOT_OK);
    }
'''))
e('dt obj order', (DT, '''    obj->c[stay] -= (aij / aik) * obj->c[subst];
    obj->offset += (rhs / aik) * obj->c[subst];
''', '''    const double price = obj->c[subst] / aik;
    obj->offset += price * rhs;
    obj->c[stay] -= price * aij;
'''))
e('dt sides early', (DT, '''    if (rhs_dton != 0.0)
    {
        double change = coeff_subst / aik * rhs_dton;

        if (!HAS_TAG(rTag, R_TAG_LHS_INF))
        {
            *lhs -= change;
        }

        if (!HAS_TAG(rTag, R_TAG_RHS_INF))
        {
            *rhs -= change;
        }
    }
''', '''    if (rhs_dton == 0.0) return;
    const double change = -(coeff_subst / aik * rhs_dton);
    *rhs += HAS_TAG(rTag, R_TAG_RHS_INF) ? 0.0 : change;
    *lhs += HAS_TAG(rTag, R_TAG_LHS_INF) ? 0.0 : change;
'''))
e('dt newval', (DT, '''    double new_val = old_val - (aij / aik) * A->x[subst_idx];
    if (ABS(new_val) <= ZERO_TOL)
    {
        new_val = 0.0;
    }
''', '''    const double a_subst = A->x[subst_idx];
    double new_val = old_val - a_subst / aik * aij;
    if (new_val <= ZERO_TOL && new_val >= -ZERO_TOL) new_val = 0.0;
'''), (DT, '''    save_retrieval_added_row(postsolve_info, i, q, -A->x[subst_idx] / aik);
''', '''    save_retrieval_added_row(postsolve_info, i, q, -(a_subst / aik));
'''))
e('dt record order', (DT, '''    col_tags[k] = C_TAG_INACTIVE;
    col_sizes[k] = SIZE_INACTIVE_COL;

    assert(AT->p[j].end - AT->p[j].start == col_sizes[j]);
    count_locks_one_column(&rowj_AT, constraints->state->col_locks + j, row_tags);

    // postsolve information
    save_retrieval_sub_col(postsolve_info, k, row->cols, row->vals, 2, rhs[row->i],
                           row->i, ck);
    save_retrieval_deleted_row(postsolve_info, row->i, ck / aik);
''', '''    const double side = rhs[row->i];
    const double y = ck / aik;
    save_retrieval_sub_col(postsolve_info, k, row->cols, row->vals, 2, side,
                           row->i, ck);
    save_retrieval_deleted_row(postsolve_info, row->i, y);

    count_locks_one_column(&rowj_AT, constraints->state->col_locks + j, row_tags);
    col_sizes[k] = SIZE_INACTIVE_COL;
    col_tags[k] = C_TAG_INACTIVE;
'''))
e('dt coeffs swap', (DT, '''    if (*k == row->cols[0])
    {
        assert(*j == row->cols[1]);
        *aik = row->vals[0];
        *aij = row->vals[1];
    }
    else
    {
        assert(*j == row->cols[0] && *k == row->cols[1]);
        *aik = row->vals[1];
        *aij = row->vals[0];
    }
''', '''    const int pos = *k == row->cols[0] ? 0 : 1;
    *aik = row->vals[pos];
    *aij = row->vals[1 - pos];
'''))
e('dt not fixed', (DT, '''        if (modify_bounds(constraints, i, aij, aik, *row.rhs, bounds[k].lb,
                          bounds[k].ub, j, col_tags[k]) == INFEASIBLE)
        {
            status = INFEASIBLE;
            break;
        }

        if (HAS_TAG(col_tags[j], C_TAG_INACTIVE))
        {
            continue;
        }
''', '''        const Bound bk = bounds[k];
        const double side = *row.lhs;
        const PresolveStatus moved = modify_bounds(constraints, i, aij, aik, side,
                                                   bk.lb, bk.ub, j, col_tags[k]);
        if (moved == INFEASIBLE)
        {
            status = moved;
            break;
        }
        if (HAS_TAG(col_tags[j], C_TAG_INACTIVE)) continue;
'''))
e('pp fix merge', (PP, '''        // check for infeasibility
        if (new_lb >= ub + FEAS_TOL)
        {
            return INFEASIBLE;
        }

        // check if variable can be fixed
        if (new_lb >= ub || (ub - new_lb) * get_max_abs(vals, len) <= FEAS_TOL)
        {
''', '''        const double room = ub - new_lb;
        if (!(ub + FEAS_TOL > new_lb)) return INFEASIBLE;
        const bool closed = room <= 0.0 || room * get_max_abs(vals, len) <= FEAS_TOL;
        if (closed)
        {
'''))
e('pp tighten cond', (PP, '''    if (is_lb_inf || (*finite_bound_tightening && (new_lb - *lb > FEAS_TOL * 1e4) &&
                      (new_lb - *lb > 1e-2 * ABS(*lb))))
    {
''', '''    bool tighten = is_lb_inf;
    if (!tighten && *finite_bound_tightening)
    {
        const double gain = new_lb - *lb;
        tighten = gain > 1e-2 * ABS(*lb) && gain > FEAS_TOL * 1e4;
    }
    if (tighten)
    {
'''))
e('pp save before', (PP, '''        double old_bound = *lb;
        *lb = new_lb;

        update_activities_bound_change(
            constraints->state->activities, constraints->A, constraints->bounds,
            vals, rows, (int) len, old_bound, new_lb, !is_lb_inf, true,
            constraints->state->updated_activities HUGE_BOUND_IS_NOT_OK);

        save_retrieval_bound_change_no_row(constraints->state->postsolve_info, col,
                                           new_lb, ub, false);
''', '''        State *data = constraints->state;
        const double old_bound = *lb;
        save_retrieval_bound_change_no_row(data->postsolve_info, col, new_lb, ub,
                                           false);
        *lb = new_lb;
        update_activities_bound_change(
            data->activities, constraints->A, constraints->bounds, vals, rows,
            (int) len, old_bound, new_lb, !is_lb_inf, true,
            data->updated_activities HUGE_BOUND_IS_NOT_OK);
'''))
e('pp implied local', (PP, '''                implied_ub = bounds[k].lb + (*row->rhs - act->min) / Aik;
                is_ub_inf = HAS_TAG(col_tags[k], C_TAG_UB_INF);

                if ((is_ub_inf || implied_ub < bounds[k].ub) && !IS_HUGE(implied_ub))
                {
''', '''                const double slack = *row->rhs - act->min;
                implied_ub = slack / Aik + bounds[k].lb;
                is_ub_inf = (col_tags[k] & C_TAG_UB_INF) != 0;
                if (!is_ub_inf && implied_ub >= bounds[k].ub) continue;
                if (!IS_HUGE(implied_ub))
                {
'''))
e('pp bound ternary', (PP, '''        implied_bound =
            (is_rhs_inf) ? (act->max - min_act) / Aik : (*row->rhs - min_act) / Aik;

        if (Aik > 0)
''', '''        double top = *row->rhs;
        if (is_rhs_inf) top = act->max;
        implied_bound = (top - min_act) / Aik;

        if (Aik > 0)
'''))
e('pp search helper', (PP, '''static inline PresolveStatus
bound_tightening_single_row_rhs(''', '''static int infinite_entry(const ConstRowView *row, const ColTag *tags)
{
    int at = 0;
    while (at < *row->len)
    {
        const ColTag t = tags[row->cols[at]];
        const ColTag inf = row->vals[at] > 0 ? C_TAG_LB_INF : C_TAG_UB_INF;
        if (!HAS_TAG(t, C_TAG_INACTIVE) && HAS_TAG(t, inf)) break;
        at++;
    }
    return at;
}

static inline PresolveStatus
bound_tightening_single_row_rhs('''), (PP, '''        for (j = 0; j < *row->len; ++j)
        {
            Aik = row->vals[j];
            k = row->cols[j];
            is_lb_inf = HAS_TAG(col_tags[k], C_TAG_LB_INF);
            is_ub_inf = HAS_TAG(col_tags[k], C_TAG_UB_INF);
            is_col_inactive = HAS_TAG(col_tags[k], C_TAG_INACTIVE);

            if (((Aik > 0 && is_lb_inf) || (Aik < 0 && is_ub_inf)) &&
                !is_col_inactive)
            {
                break;
            }
        }

        assert(j != *row->len && Aik != 0 && !is_col_inactive);

        // ------------------------------------------------------------------------------
        // compute an implied bound and use it if it is tighter
        // ------------------------------------------------------------------------------
        min_act =''', '''        j = infinite_entry(row, col_tags);
        Aik = row->vals[j];
        k = row->cols[j];
        is_lb_inf = HAS_TAG(col_tags[k], C_TAG_LB_INF);
        is_ub_inf = HAS_TAG(col_tags[k], C_TAG_UB_INF);

        min_act ='''))
e('ac max select', (AC, '''double compute_max_act_no_tags(const double *vals, const int *cols, int len,
                               const Bound *bounds)
{
    double max_act = 0.0;
    for (int j = 0; j < len; ++j)
    {
        if (vals[j] > 0)
        {
            assert(!IS_POS_INF(bounds[cols[j]].ub));
            max_act += vals[j] * bounds[cols[j]].ub;
        }
        else
''', '''double compute_max_act_no_tags(const double *vals, const int *cols, int len,
                               const Bound *bounds)
{
    double max_act = 0.0;
    for (int j = 0; j < len; ++j)
    {
        const Bound *b = bounds + cols[j];
        if (!(vals[j] <= 0))
        {
            max_act += b->ub * vals[j];
        }
        else
'''))
e('ac min all select', (AC, '''    double min_act = 0.0;
    for (int j = 0; j < len; ++j)
    {
        if (vals[j] > 0)
        {
            assert(!IS_NEG_INF(bounds[cols[j]].lb));
            min_act += vals[j] * bounds[cols[j]].lb;
        }
        else
        {
            assert(!IS_POS_INF(bounds[cols[j]].ub));
            min_act += vals[j] * bounds[cols[j]].ub;
        }
    }
    return min_act;
''', '''    double total = 0.0;
    while (len > 0)
    {
        len--;
        const double a = vals[len];
        const Bound b = bounds[cols[len]];
        total += a * (a > 0 ? b.lb : b.ub);
    }
    return total;
'''))
e('lk eq merged', (LK, '''    if (to_upper)
    {
        for (int i = 0; i < len; i++)
        {
            assert(vals[i] != 0);
            if (vals[i] > 0)
            {
                locks[cols[i]].down--;
            }
            else
            {
                locks[cols[i]].up--;
            }
        }
    }
    // --------------------------------------------------------
    // if the new constraint is a lower inequality constraint
    // --------------------------------------------------------
    else
    {
        for (int i = 0; i < len; i++)
        {
            assert(vals[i] != 0);
            if (vals[i] > 0)
            {
                locks[cols[i]].up--;
            }
            else
            {
                locks[cols[i]].down--;
            }
        }
    }
''', '''    for (int i = 0; i < len; i++)
    {
        Lock *l = &locks[cols[i]];
        if ((vals[i] > 0) == to_upper)
            l->down -= 1;
        else
            l->up -= 1;
    }
'''))
e('lk count local', (LK, '''    lock->up = 0;
    lock->down = 0;

    const int *rows = col->cols;

    for (int i = 0; i < *col->len; ++i)
    {
        if (col->vals[i] > 0)
        {
            if (!HAS_TAG(row_tags[rows[i]], R_TAG_RHS_INF))
            {
                lock->up++;
            }

            if (!HAS_TAG(row_tags[rows[i]], R_TAG_LHS_INF))
            {
                lock->down++;
            }
        }
        else
        {
            assert(col->vals[i] < 0);
            if (!HAS_TAG(row_tags[rows[i]], R_TAG_RHS_INF))
            {
                lock->down++;
            }

            if (!HAS_TAG(row_tags[rows[i]], R_TAG_LHS_INF))
            {
                lock->up++;
            }
        }
    }
''', '''    int n[2] = {0, 0};
    for (int i = 0; i < *col->len; ++i)
    {
        const RowTag t = row_tags[col->cols[i]];
        const int up = col->vals[i] > 0;
        n[up] += !HAS_TAG(t, R_TAG_RHS_INF);
        n[!up] += !HAS_TAG(t, R_TAG_LHS_INF);
    }
    *lock = (Lock){.up = n[1], .down = n[0]};
'''))
