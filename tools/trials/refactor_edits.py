PR = 'src/core/Presolver.c'
E = []


def e(label, *edits):
    E.append((label, edits))


e('pre bounds helper', (PR, '''void populate_presolved_problem(Presolver *presolver)
{''', '''static void copy_bounds(double *lo, double *hi, const Bound *b, size_t n)
{
    size_t k = 0;
    while (k < n)
    {
        *lo++ = b[k].lb;
        *hi++ = b[k].ub;
        k++;
    }
}

void populate_presolved_problem(Presolver *presolver)
{'''), (PR, '''    for (int i = 0; i < A->n; i++)
    {
        reduced_prob->lbs[i] = constraints->bounds[i].lb;
        reduced_prob->ubs[i] = constraints->bounds[i].ub;
    }
''', '''    copy_bounds(reduced_prob->lbs, reduced_prob->ubs, constraints->bounds, A->n);
'''))
e('pre ap local', (PR, '''    reduced_prob->Ap = (int *) malloc((A->m + 1) * sizeof(int));
    for (int i = 0; i < A->m + 1; i++)
    {
        reduced_prob->Ap[i] = A->p[i].start;
    }
''', '''    int *starts = (int *) malloc((A->m + 1) * sizeof(int));
    for (int i = (int) A->m; i >= 0; --i)
    {
        starts[i] = A->p[i].start;
    }
    reduced_prob->Ap = starts;
'''))
e('pre two loops', (PR, '''    for (int i = 0; i < A->n; i++)
    {
        reduced_prob->lbs[i] = constraints->bounds[i].lb;
        reduced_prob->ubs[i] = constraints->bounds[i].ub;
    }
''', '''    const Bound *b = constraints->bounds;
    for (size_t i = 0; i < A->n; i++)
        reduced_prob->lbs[i] = b[i].lb;
    for (const Bound *p = b; p != b + A->n; p++)
        reduced_prob->ubs[p - b] = p->ub;
'''))
e('run merged into helper', (PR, '''PresolveStatus run_presolver(Presolver *presolver)
{''', '''static PresolveStatus finish(Presolver *presolver, Timer *outer)
{
    Problem *prob = presolver->prob;
    PresolveStats *stats = presolver->stats;
    const Settings *stgs = presolver->stgs;
    Matrix *A = prob->constraints->A;
    if (stgs->relax_bounds)
    {
        remove_redundant_bounds(prob->constraints);
    }

    problem_clean(prob, true);
    stats->n_rows_reduced = A->m;
    stats->n_cols_reduced = A->n;
    stats->nnz_reduced = A->nnz;
    populate_presolved_problem(presolver);
    clock_gettime(CLOCK_MONOTONIC, &outer->end);
    stats->time_presolve = GET_ELAPSED_SECONDS((*outer));
    if (stgs->verbose) print_end_message(A, stats);
    return final_status(stats);
}

PresolveStatus run_presolver(Presolver *presolver)
{'''), (PR, '''    if (status != UNCHANGED)
    {
        // problem detected to be infeasible or unbounded
        if (stgs->verbose)
        {
            print_infeas_or_unbnd_message(status);
        }

        return status;
    }

    if (stgs->relax_bounds)
    {
        remove_redundant_bounds(prob->constraints);
    }

    problem_clean(prob, true);
    DEBUG(run_debugger(prob->constraints, true));
    stats->n_rows_reduced = A->m;
    stats->n_cols_reduced = A->n;
    stats->nnz_reduced = A->nnz;
    DEBUG(run_debugger_stats_consistency_check(stats));
    populate_presolved_problem(presolver);
    clock_gettime(CLOCK_MONOTONIC, &outer_timer.end);
    stats->time_presolve = GET_ELAPSED_SECONDS(outer_timer);

    if (stgs->verbose)
    {
        print_end_message(A, stats);
    }

    return final_status(stats);
''', '''    if (status == UNCHANGED)
    {
        return finish(presolver, &outer_timer);
    }
    if (stgs->verbose) print_infeas_or_unbnd_message(status);
    return status;
'''))
e('run for loop', (PR, '''    while (!terminate)
    {
        // before each''', '''    for (;;)
    {
        if (terminate) break;
        // before each'''))
e('run do loop', (PR, '''    while (!terminate)
    {
        // before each''', '''    do
    {
        // before each'''), (PR, '''            update_complexity(curr_complexity, nnz_before_phase, nnz_after_phase);
    }
''', '''            update_complexity(curr_complexity, nnz_before_phase, nnz_after_phase);
    } while (!terminate);
'''))
e('run switch', (PR, '''        if (curr_complexity == FAST)
        {
            nnz_before_reduction = A->nnz;
            RUN_AND_TIME(run_fast_explorers, inner_timer,
                         stats->time_fast_reductions, status, prob, stgs);
            stats->nnz_removed_fast += nnz_before_reduction - A->nnz;
        }
        else if (curr_complexity == MEDIUM)
        {
            RUN_AND_TIME(run_medium_explorers, inner_timer,
                         stats->time_medium_reductions, status, prob, stgs, stats);
            nnz_after_cycle = A->nnz;
        }
''', '''        switch (curr_complexity)
        {
            case FAST:
                nnz_before_reduction = A->nnz;
                RUN_AND_TIME(run_fast_explorers, inner_timer,
                             stats->time_fast_reductions, status, prob, stgs);
                stats->nnz_removed_fast += nnz_before_reduction - A->nnz;
                break;
            case MEDIUM:
                RUN_AND_TIME(run_medium_explorers, inner_timer,
                             stats->time_medium_reductions, status, prob, stgs, stats);
                nnz_after_cycle = A->nnz;
                break;
            default:
                break;
        }
'''))
e('run verdict first', (PR, '''        if (status != UNCHANGED)
        {
            break;
        }

        stats->nnz_removed_trivial''', '''        if (status != UNCHANGED)
        {
            if (stgs->verbose) print_infeas_or_unbnd_message(status);
            return status;
        }

        stats->nnz_removed_trivial'''))
e('term one expr', (PR, '''    if (HAS_STATUS(status, UNBNDORINFEAS))
    {
        return true;
    }

    if (complexity == MEDIUM &&
        (double) nnz_after_cycle >= NNZ_REMOVED_CYCLE * (double) nnz_before_cycle)
    {
        return true;
    }
''', '''    const bool stalled = complexity == MEDIUM && !((double) nnz_after_cycle < NNZ_REMOVED_CYCLE * (double) nnz_before_cycle);
    if ((status & UNBNDORINFEAS) != 0 || stalled)
    {
        return true;
    }
'''))
e('term time helper', (PR, '''static inline bool update_termination(''', '''static bool out_of_time(Timer t, double limit)
{
    clock_gettime(CLOCK_MONOTONIC, &t.end);
    return !(GET_ELAPSED_SECONDS(t) < limit);
}

static inline bool update_termination('''), (PR, '''    clock_gettime(CLOCK_MONOTONIC, &outer_timer.end);

    if (GET_ELAPSED_SECONDS(outer_timer) >= max_time)
    {
        if (verbose)
        {
            printf("Maximum time limit of %.2f seconds reached.\\n", max_time);
        }

        return true;
    }

    return false;
''', '''    if (!out_of_time(outer_timer, max_time))
    {
        return false;
    }
    if (verbose) printf("Maximum time limit of %.2f seconds reached.\\n", max_time);
    return true;
'''))
e('cplx ternary', (PR, '''    if (curr_complexity == FAST)
    {
        if ((double) nnz_after_phase < NNZ_REMOVED_FAST * (double) nnz_before_phase)
        {
            return FAST;
        }

        return MEDIUM;
    }
    else if (curr_complexity == MEDIUM)
    {
        return FAST;
    }

    // should never reach here
    assert(false);
    return FAST;
''', '''    const bool productive = (double) nnz_after_phase < NNZ_REMOVED_FAST * (double) nnz_before_phase;
    return curr_complexity == FAST && !productive ? MEDIUM : FAST;
'''))
e('trivial loop', (PR, '''    do
    {
        status = remove_ston_rows(prob);
        RETURN_IF_INFEASIBLE(status);
    } while (status == REDUCED);
''', '''    for (status = REDUCED; status == REDUCED;)
    {
        status = remove_ston_rows(prob);
        if (status == INFEASIBLE) return status;
    }
'''))
e('trivial dual helper', (PR, '''static inline PresolveStatus run_trivial_explorers(Problem *prob,
                                                   const Settings *stgs)
{''', '''static PresolveStatus dual_part(Problem *prob)
{
    PresolveStatus a = remove_empty_cols(prob);
    PresolveStatus b = simple_dual_fix(prob);
    return a | b;
}

static inline PresolveStatus run_trivial_explorers(Problem *prob,
                                                   const Settings *stgs)
{'''), (PR, '''        status |= remove_empty_cols(prob);
        status |= simple_dual_fix(prob);
        RETURN_IF_UNBNDORINFEAS(status);
''', '''        status |= dual_part(prob);
        RETURN_IF_UNBNDORINFEAS(status);
'''))
e('fast early', (PR, '''        status |= remove_ston_cols(prob);

        // after removing singleton columns, there can be new empty columns
        // and singleton rows, but no empty rows
        assert(prob->constraints->state->empty_rows->len == 0);
        status |= run_trivial_explorers(prob, stgs);
''', '''        PresolveStatus first = remove_ston_cols(prob);
        PresolveStatus second = run_trivial_explorers(prob, stgs);
        status = first | second;
'''))
e('medium stats helper', (PR, '''static inline PresolveStatus
run_medium_explorers(''', '''static void book(size_t *removed, double *spent, Timer t, size_t before, size_t after)
{
    *removed += before - after;
    clock_gettime(CLOCK_MONOTONIC, &t.end);
    *spent += GET_ELAPSED_SECONDS(t);
}

static inline PresolveStatus
run_medium_explorers('''), (PR, '''        stats->nnz_removed_primal_propagation += nnz_before - *nnz;
        clock_gettime(CLOCK_MONOTONIC, &timer.end);
        stats->time_primal_propagation += GET_ELAPSED_SECONDS(timer);
''', '''        book(&stats->nnz_removed_primal_propagation, &stats->time_primal_propagation, timer, nnz_before, *nnz);
'''), (PR, '''        stats->nnz_removed_parallel_rows += nnz_before - *nnz;
        clock_gettime(CLOCK_MONOTONIC, &timer.end);
        stats->time_parallel_rows += GET_ELAPSED_SECONDS(timer);
''', '''        book(&stats->nnz_removed_parallel_rows, &stats->time_parallel_rows, timer, nnz_before, *nnz);
'''))
e('new goto to return helper', (PR, '''    memcpy(lhs_copy, lhs, n_rows * sizeof(double));
    memcpy(rhs_copy, rhs, n_rows * sizeof(double));
    memcpy(c_copy, c, n_cols * sizeof(double));
''', '''    for (size_t i = 0; i < n_rows; i++)
    {
        lhs_copy[i] = lhs[i];
        rhs_copy[i] = rhs[i];
    }
    memcpy(c_copy, c, sizeof(*c) * n);
'''))
e('new alloc order', (PR, '''    lhs_copy = (double *) ps_malloc(n_rows, sizeof(double));
    rhs_copy = (double *) ps_malloc(n_rows, sizeof(double));
    c_copy = (double *) ps_malloc(n_cols, sizeof(double));
    col_tags = (ColTag *) ps_calloc(n_cols, sizeof(ColTag));
    bounds = (Bound *) ps_malloc(n_cols, sizeof(Bound));
''', '''    bounds = (Bound *) ps_malloc(n_cols, sizeof(Bound));
    col_tags = (ColTag *) ps_calloc(n_cols, sizeof(ColTag));
    c_copy = (double *) ps_malloc(n, sizeof *c_copy);
    rhs_copy = (double *) ps_malloc(m, sizeof *rhs_copy);
    lhs_copy = (double *) ps_malloc(m, sizeof *lhs_copy);
'''))
e('new early returns', (PR, '''    A = matrix_new_no_extra_space(Ax, Ai, Ap, n_rows, n_cols, nnz);
    if (!A) goto cleanup;
''', '''    if ((A = matrix_new_no_extra_space(Ax, Ai, Ap, n_rows, n_cols, nnz)) == NULL)
    {
        struct clean_up_scope scope = {
            A,         AT,       lhs_copy, rhs_copy,   c_copy, row_sizes,
            col_sizes, row_tags, locks,    activities, data,   constraints,
            presolver, obj,      col_tags, bounds,     work};
        presolver_clean_up(scope);
        return NULL;
    }
'''))
e('new alloc sol helper', (PR, '''Presolver *new_presolver(const double *Ax,''', '''static Solution *alloc_solution(size_t n_rows, size_t n_cols)
{
    Solution *s = (Solution *) ps_calloc(1, sizeof(Solution));
    if (!s) return NULL;
    s->x = (double *) ps_malloc(n_cols, sizeof(double));
    s->y = (double *) ps_malloc(n_rows, sizeof(double));
    s->z = (double *) ps_malloc(n_cols, sizeof(double));
    s->dim_x = n_cols;
    s->dim_y = n_rows;
    if (s->x && s->y && s->z) return s;
    PS_FREE(s->x);
    PS_FREE(s->y);
    PS_FREE(s->z);
    PS_FREE(s);
    return NULL;
}

Presolver *new_presolver(const double *Ax,'''), (PR, '''    presolver->sol = (Solution *) ps_calloc(1, sizeof(Solution));
    if (!presolver->sol) goto cleanup;
    presolver->sol->x = (double *) ps_malloc(n_cols, sizeof(double));
    presolver->sol->y = (double *) ps_malloc(n_rows, sizeof(double));
    presolver->sol->z = (double *) ps_malloc(n_cols, sizeof(double));
    presolver->sol->dim_x = n_cols;
    presolver->sol->dim_y = n_rows;
    if (!presolver->sol->x || !presolver->sol->y || !presolver->sol->z)
    {
        goto cleanup;
    }
''', '''    presolver->sol = alloc_solution(n_rows, n_cols);
    if (presolver->sol == NULL) goto cleanup;
'''))
e('new thread bounds split', (PR, '''    for (int i = 0; i < data->n_cols; i++)
    {
        data->bounds[i].lb = data->lbs[i];
        data->bounds[i].ub = data->ubs[i];

        if (IS_NEG_INF(data->lbs[i]))
        {
            UPDATE_TAG(data->col_tags[i], C_TAG_LB_INF);
        }

        if (IS_POS_INF(data->ubs[i]))
        {

            UPDATE_TAG(data->col_tags[i], C_TAG_UB_INF);
        }
    }
''', '''    Bound *b = data->bounds;
    for (size_t i = 0; i < data->n_cols; ++i, ++b)
    {
        const double lo = data->lbs[i], hi = data->ubs[i];
        b->lb = lo;
        b->ub = hi;
        if (IS_NEG_INF(lo)) UPDATE_TAG(data->col_tags[i], C_TAG_LB_INF);
        if (IS_POS_INF(hi)) UPDATE_TAG(data->col_tags[i], C_TAG_UB_INF);
    }
'''))
e('new thread order', (PR, '''    data->locks = new_locks(data->A, data->row_tags);
    data->activities = new_activities(data->A, data->col_tags, data->bounds);
    count_rows(data->A, data->row_sizes);
''', '''    count_rows(data->A, data->row_sizes);
    data->activities = new_activities(data->A, data->col_tags, data->bounds);
    data->locks = new_locks(data->A, data->row_tags);
'''))
e('settings helper', (PR, '''void set_settings_true(Settings *stgs)
{
    stgs->ston_cols = true;
    stgs->dton_eq = true;
    stgs->parallel_rows = true;
    stgs->parallel_cols = true;
    stgs->primal_propagation = true;
    stgs->dual_fix = true;
    // stgs->clean_small_coeff = true;
    stgs->finite_bound_tightening = true;
    stgs->relax_bounds = true;
    stgs->verbose = true;
}
''', '''static void set_all(Settings *s, bool v)
{
    s->relax_bounds = s->finite_bound_tightening = s->dual_fix = v;
    s->ston_cols = s->dton_eq = v;
    s->parallel_rows = s->parallel_cols = v;
    s->primal_propagation = v;
    s->verbose = v;
}

void set_settings_true(Settings *stgs)
{
    set_all(stgs, true);
}
'''), (PR, '''    stgs->ston_cols = false;
    stgs->dton_eq = false;
    stgs->parallel_rows = false;
    stgs->parallel_cols = false;
    stgs->primal_propagation = false;
    stgs->dual_fix = false;
    // stgs->clean_small_coeff = false;
    stgs->finite_bound_tightening = false;
    stgs->relax_bounds = false;
    stgs->verbose = false;
''', '''    set_all(stgs, false);
'''))
e('settings default via true', (PR, '''    stgs->ston_cols = true;
    stgs->dton_eq = true;
    stgs->parallel_rows = true;
    stgs->parallel_cols = true;
    stgs->primal_propagation = true;
    stgs->dual_fix = true;
    // stgs->clean_small_coeff = false;
    stgs->finite_bound_tightening = true;
    stgs->relax_bounds = true;
    stgs->max_shift = 10;
    stgs->max_time = 60.0;
    stgs->verbose = true;
    return stgs;
''', '''    set_settings_true(stgs);
    stgs->max_shift = 10;
    stgs->max_time = 60.0;
    return stgs;
'''))
e('settings default literal', (PR, '''    stgs->ston_cols = true;
    stgs->dton_eq = true;
    stgs->parallel_rows = true;
    stgs->parallel_cols = true;
    stgs->primal_propagation = true;
    stgs->dual_fix = true;
    // stgs->clean_small_coeff = false;
    stgs->finite_bound_tightening = true;
    stgs->relax_bounds = true;
    stgs->max_shift = 10;
    stgs->max_time = 60.0;
    stgs->verbose = true;
    return stgs;
''', '''    const Settings d = {.ston_cols = true, .dton_eq = true, .parallel_rows = true, .parallel_cols = true,
                        .primal_propagation = true, .dual_fix = true, .finite_bound_tightening = true,
                        .relax_bounds = true, .max_shift = 10, .max_time = 60.0, .verbose = true};
    *stgs = d;
    return stgs;
'''))
e('free helper', (PR, '''void free_presolver(Presolver *presolver)
{''', '''static void free_sol(Solution *s)
{
    if (!s) return;
    PS_FREE(s->z);
    PS_FREE(s->y);
    PS_FREE(s->x);
    PS_FREE(s);
}

void free_presolver(Presolver *presolver)
{'''), (PR, '''    if (presolver->sol)
    {
        PS_FREE(presolver->sol->x);
        PS_FREE(presolver->sol->y);
        PS_FREE(presolver->sol->z);
        PS_FREE(presolver->sol);
    }

    PS_FREE(presolver);
''', '''    free_sol(presolver->sol);
    presolver->sol = NULL;
    free(presolver);
'''))
e('free wrap', (PR, '''    if (presolver == NULL)
    {
        return;
    }

    free_problem(presolver->prob);
    PS_FREE(presolver->stats);

    if (presolver->reduced_prob)
    {
        PS_FREE(presolver->reduced_prob->Ap);
        PS_FREE(presolver->reduced_prob->lbs);
        PS_FREE(presolver->reduced_prob->ubs);
        PS_FREE(presolver->reduced_prob);
    }
''', '''    if (!presolver) return;
    PresolvedProblem *r = presolver->reduced_prob;
    if (r != NULL)
    {
        free(r->lbs);
        free(r->ubs);
        free(r->Ap);
        free(r);
    }
    PS_FREE(presolver->stats);
    free_problem(presolver->prob);
'''))
e('clean up pointer order', (PR, '''    free_activities(scope.activities);
    free_locks(scope.locks);
    free_work(scope.work);
    free_state(scope.data);
    free_constraints(scope.constraints);
    free_objective(scope.obj);
    free_presolver(scope.presolver);
''', '''    free_objective(scope.obj);
    free_constraints(scope.constraints);
    free_state(scope.data);
    free_locks(scope.locks);
    free_activities(scope.activities);
    free_work(scope.work);
    if (scope.presolver) free_presolver(scope.presolver);
'''))
e('postsolve locals', (PR, '''    postsolver_update(postsolve_info, stats->n_cols_reduced, stats->n_rows_reduced,
                      data->work->mappings->cols, data->work->mappings->rows);
    postsolver_run(postsolve_info, sol, x, y, z);
''', '''    const Mapping *maps = data->work->mappings;
    const PresolvedProblem *red = presolver->reduced_prob;
    postsolver_update(postsolve_info, red->n, red->m, maps->cols, maps->rows);
    postsolver_run(postsolve_info, sol, x, y, z);
'''))
e('postsolve message first', (PR, '''    stats->time_postsolve = GET_ELAPSED_SECONDS(timer);

    if (presolver->stgs->verbose)
    {
        printf("PSLP postsolve time: %.4f seconds\\n", stats->time_postsolve);
    }
''', '''    const double spent = GET_ELAPSED_SECONDS(timer);
    stats->time_postsolve = spent;
    const Settings *stgs = presolver->stgs;
    if (!stgs->verbose) return;
    printf("PSLP postsolve time: %.4f seconds\\n", spent);
'''))
e('final status expr', (PR, '''    if (stats->n_cols_original == stats->n_cols_reduced &&
        stats->n_rows_original == stats->n_rows_reduced &&
        stats->nnz_original == stats->nnz_reduced)
    {
        return UNCHANGED;
    }
    else
    {
        return REDUCED;
    }
''', '''    bool same = stats->nnz_original == stats->nnz_reduced;
    same &= stats->n_rows_original == stats->n_rows_reduced;
    same &= !(stats->n_cols_original != stats->n_cols_reduced);
    return same ? UNCHANGED : REDUCED;
'''))
e('run settings copy', (PR, '''    const Settings *stgs = presolver->stgs;
    Complexity curr''', '''    const Settings own = *presolver->stgs;
    const Settings *stgs = &own;
    Complexity curr'''))
PO = 'src/core/Postsolver.c'
e('T01 left', (PR, '''    if (GET_ELAPSED_SECONDS(outer_timer) >= max_time)
''', '''    const double left = max_time - GET_ELAPSED_SECONDS(outer_timer);
    if (left <= 0)
'''))
e('T01 deadline', (PR, '''    clock_gettime(CLOCK_MONOTONIC, &outer_timer.end);

    if (GET_ELAPSED_SECONDS(outer_timer) >= max_time)
''', '''    clock_gettime(CLOCK_MONOTONIC, &outer_timer.end);
    const double now = (double) outer_timer.end.tv_sec + (double) outer_timer.end.tv_nsec / 1e9;
    const double deadline = (double) outer_timer.start.tv_sec + (double) outer_timer.start.tv_nsec / 1e9 + max_time;

    if (now >= deadline)
'''))
e('T01 progress ratio', (PR, '''        (double) nnz_after_cycle >= NNZ_REMOVED_CYCLE * (double) nnz_before_cycle)''', '''        (double) nnz_after_cycle - NNZ_REMOVED_CYCLE * (double) nnz_before_cycle >= 0)'''))
e('T01 terminate in loop', (PR, '''        terminate =
            update_termination(nnz_after_cycle, nnz_before_cycle, curr_complexity,
                               status, stgs->max_time, outer_timer, stgs->verbose);
''', '''        if (update_termination(nnz_after_cycle, nnz_before_cycle, curr_complexity,
                               status, stgs->max_time, outer_timer, stgs->verbose))
        {
            break;
        }
'''))
e('ps copy ternary', (PO, '''        if (col_map[i] == -1)
        {
            sol->x[i] = COL_NOT_RETRIEVED;
            sol->z[i] = COL_NOT_RETRIEVED;
            continue;
        }

        sol->x[i] = x[col_map[i]];
        sol->z[i] = z[col_map[i]];
''', '''        const int j = col_map[i];
        sol->x[i] = j < 0 ? COL_NOT_RETRIEVED : x[j];
        sol->z[i] = j < 0 ? COL_NOT_RETRIEVED : z[j];
'''))
e('ps copy helper', (PO, '''static inline void copy_reduced_sol_to_orginal(''', '''static void spread(double *out, const double *in, const int *map, size_t n)
{
    size_t i = n;
    while (i-- > 0)
    {
        out[i] = map[i] != -1 ? in[map[i]] : INF;
    }
}

static inline void copy_reduced_sol_to_orginal('''), (PO, '''    size_t dim_x = sol->dim_x;
    for (size_t i = 0; i < dim_x; ++i)
    {
        if (col_map[i] == -1)
        {
            sol->x[i] = COL_NOT_RETRIEVED;
            sol->z[i] = COL_NOT_RETRIEVED;
            continue;
        }

        sol->x[i] = x[col_map[i]];
        sol->z[i] = z[col_map[i]];
    }

    size_t dim_y = sol->dim_y;
    for (size_t i = 0; i < dim_y; ++i)
    {
        if (row_map[i] == -1)
        {
            sol->y[i] = ROW_NOT_RETRIEVED;
            continue;
        }

        sol->y[i] = y[row_map[i]];
    }
''', '''    spread(sol->x, x, col_map, sol->dim_x);
    spread(sol->z, z, col_map, sol->dim_x);
    spread(sol->y, y, row_map, sol->dim_y);
'''))
e('ps copy clear first', (PO, '''        if (row_map[i] == -1)
        {
            sol->y[i] = ROW_NOT_RETRIEVED;
            continue;
        }

        sol->y[i] = y[row_map[i]];
''', '''        sol->y[i] = ROW_NOT_RETRIEVED;
        if (row_map[i] != -1) sol->y[i] = y[row_map[i]];
'''))
e('ps fix acc', (PO, '''    sol->x[col] = val;
    sol->z[col] = ck;
    for (int i = 0; i < len; ++i)
    {
        assert(sol->y[ak_rows[i]] != ROW_NOT_RETRIEVED);
        sol->z[col] -= ak_vals[i] * sol->y[ak_rows[i]];
    }
''', '''    double zk = ck;
    for (int i = len - 1; i >= 0; --i)
    {
        zk -= sol->y[ak_rows[i]] * ak_vals[i];
    }
    sol->z[col] = zk;
    sol->x[col] = val;
'''))
e('ps fix dot helper', (PO, '''// fixes xk and recovers zk = ck - ak^T y
''', '''static double dot(const double *v, const int *idx, int n, const double *d)
{
    double s = 0.0;
    for (int q = 0; q < n; q++) s += v[q] * d[idx[q]];
    return s;
}

// fixes xk and recovers zk = ck - ak^T y
'''), (PO, '''    sol->z[col] = ck;
    for (int i = 0; i < len; ++i)
    {
        assert(sol->y[ak_rows[i]] != ROW_NOT_RETRIEVED);
        sol->z[col] -= ak_vals[i] * sol->y[ak_rows[i]];
    }
''', '''    sol->z[col] = ck - dot(ak_vals, ak_rows, len, sol->y);
'''))
e('ps sub acc', (PO, '''    sol->x[k] = rhs;
    double aik = 0.0;
    for (int ii = 0; ii < len; ++ii)
    {
        if (cols[ii] == k)
        {
            aik = vals[ii];
            continue;
        }

        assert(sol->x[cols[ii]] != COL_NOT_RETRIEVED);
        sol->x[k] -= vals[ii] * sol->x[cols[ii]];
    }

    sol->z[k] = ck - aik * sol->y[i];
    sol->x[k] /= aik;
''', '''    double acc = rhs, aik = 0.0;
    for (int ii = 0; ii < len; ++ii)
    {
        const int c = cols[ii];
        if (c != k)
        {
            acc -= vals[ii] * sol->x[c];
        }
        else
        {
            aik = vals[ii];
        }
    }

    sol->x[k] = acc / aik;
    sol->z[k] = ck - sol->y[i] * aik;
'''))
e('ps inf helper', (PO, '''        if (fix_to_pos_inf)
        {
            extreme_val = MAX(extreme_val, val);
        }
        else
        {
            extreme_val = MIN(extreme_val, val);
        }
''', '''        const bool better = fix_to_pos_inf ? val > extreme_val : val < extreme_val;
        if (better) extreme_val = val;
'''))
e('ps par ternary', (PO, '''    if (!HAS_TAG(cTag_j, C_TAG_LB_INF))
    {
        xj_val = lb_j;
    }
    else if (!HAS_TAG(cTag_j, C_TAG_UB_INF))
    {
        xj_val = ub_j;
    }
    else
    {
        xj_val = 0;
    }
''', '''    xj_val = 0;
    if (!HAS_TAG(cTag_j, C_TAG_UB_INF)) xj_val = ub_j;
    if (!HAS_TAG(cTag_j, C_TAG_LB_INF)) xj_val = lb_j;
'''))
e('ps par z', (PO, '''    if (is_xj_at_bound && is_xk_at_bound)
    {
        sol->z[k] = ratio * sol->z[j];
    }
    else
    {
        sol->z[k] = 0.0;
    }
''', '''    sol->z[k] = (is_xk_at_bound && is_xj_at_bound) ? sol->z[j] * ratio : 0.0;
'''))
e('ps added rows', (PO, '''        if (rows[j] != i)
        {
            assert(sol->y[rows[j]] != ROW_NOT_RETRIEVED);
            sol->y[i] -= (vals[j] / aik) * sol->y[rows[j]];
        }
''', '''        if (rows[j] == i) continue;
        const double ratio = vals[j] / aik;
        sol->y[i] = sol->y[i] - sol->y[rows[j]] * ratio;
'''))
e('ps bound find', (PO, '''    for (ii = 0; ii < len; ++ii)
    {
        if (cols[ii] == j)
        {
            aij = vals[ii];
            break;
        }
    }
    assert(ii != len && aij != 0.0);

    // update yi for row i that was used in the bound change
    sol->y[i] += sol->z[j] / aij;
''', '''    ii = 0;
    while (cols[ii] != j) ii++;
    aij = vals[ii];
    const double delta = sol->z[j] / aij;
    sol->y[i] += delta;
'''))
e('ps bound early', (PO, '''    if (IS_EQUAL_FEAS_TOL(sol->x[j], original_other_bound))
    {
        if ((is_original_other_bound_lower_bound && sol->z[j] >= 0) ||
            (!is_original_other_bound_lower_bound && sol->z[j] <= 0))
        {
            return;
        }
    }

    // if the implied bound is not active we do nothing
    if (!IS_EQUAL_FEAS_TOL(sol->x[j], implied_bound))
    {
        // sol->y[i] does not always have to be zero since we possibly got the
        // bound from a doubleton equality row assert(sol->y[i] == 0.0);
        return;
    }
''', '''    const double xj = sol->x[j], zj = sol->z[j];
    const bool sign_ok = is_original_other_bound_lower_bound ? zj >= 0 : zj <= 0;
    const bool keep = sign_ok && IS_EQUAL_FEAS_TOL(xj, original_other_bound);
    if (keep || !IS_EQUAL_FEAS_TOL(xj, implied_bound)) return;
'''))
e('ps side shared', (PO, '''void retrieve_lhs_change(''', '''static bool side_active(const Solution *sol, const double *vals, const int *cols, int len, double side)
{
    double r = 0.0;
    for (int k = 0; k < len; ++k) r += vals[k] * sol->x[cols[k]];
    r -= side;
    return IS_ZERO_FEAS_TOL(r);
}

void retrieve_lhs_change('''), (PO, '''    // compute the residual of constraint i
    double residual = -new_side;
    for (int k = 0; k < len; ++k)
    {
        assert(sol->x[cols[k]] != COL_NOT_RETRIEVED);
        residual += vals[k] * sol->x[cols[k]];
    }

    if (!IS_ZERO_FEAS_TOL(residual))
    {
        return;
    }

    double cand_val = ratio * sol->y[i];
    if (ratio * cand_val < 0)
    {
        sol->y[j] = 0.0;
        return;
    }

    sol->y[j] = cand_val;
    sol->y[i] = 0.0;
''', '''    if (!side_active(sol, vals, cols, len, new_side)) return;
    double cand_val = sol->y[i] * ratio;
    if (ratio * cand_val >= 0)
    {
        sol->y[i] = 0.0;
        sol->y[j] = cand_val;
    }
    else
    {
        sol->y[j] = 0.0;
    }
'''))
e('ps side one function', (PO, '''void retrieve_lhs_change(''', '''static void side_change(Solution *sol, int i, const double *vals, const int *cols,
                         int len, double new_side, int j, double ratio, double sgn)
{
    double residual = -new_side;
    for (int k = 0; k < len; ++k)
    {
        residual += vals[k] * sol->x[cols[k]];
    }
    if (!IS_ZERO_FEAS_TOL(residual))
    {
        return;
    }
    double cand_val = ratio * sol->y[i];
    if (sgn * (ratio * cand_val) < 0)
    {
        sol->y[j] = 0.0;
        return;
    }
    sol->y[j] = cand_val;
    sol->y[i] = 0.0;
}

void retrieve_lhs_change('''), (PO, '''            retrieve_lhs_change(sol, indices[start], vals + start + 2,
                                indices + start + 2, len, vals[start],
                                indices[start + 1], vals[start + 1]);''', '''            side_change(sol, indices[start], vals + start + 2,
                                indices + start + 2, len, vals[start],
                                indices[start + 1], vals[start + 1], 1.0);'''),
  (PO, '''            retrieve_rhs_change(sol, indices[start], vals + start + 2,
                                indices + start + 2, len, vals[start],
                                indices[start + 1], vals[start + 1]);''', '''            side_change(sol, indices[start], vals + start + 2,
                                indices + start + 2, len, vals[start],
                                indices[start + 1], vals[start + 1], -1.0);'''))
e('ps while', (PO, '''    for (int i = n_reductions - 1; i >= 0; --i)
    {
        type = reductions[i];
        start = starts[i];
''', '''    int i = n_reductions;
    while (--i >= 0)
    {
        type = reductions[i];
        start = starts[i];
'''))
e('ps inner for', (PO, '''            int bound_changes_processed = 0;
            int j = i - 1;

            while (bound_changes_processed < num_of_bound_changes)
            {''', '''            int bound_changes_processed = 0;
            int j;

            for (j = i - 1; bound_changes_processed != num_of_bound_changes; j--)
            {'''), (PO, '''                                          vals[start + 1], indices[start + 1]);
                }

                j -= 1;
            }
''', '''                                          vals[start + 1], indices[start + 1]);
                }
            }
'''))
e('ps inner down', (PO, '''            int bound_changes_processed = 0;
            int j = i - 1;

            while (bound_changes_processed < num_of_bound_changes)
            {''', '''            int left = num_of_bound_changes;
            int j = i - 1;

            while (left > 0)
            {'''), (PO, '''                    bound_changes_processed += 1;
''', '''                    --left;
'''))
e('save tail helper', (PO, '''// here we should probably store information so zk''', '''static void end_record(PostsolveInfo *info)
{
    iVec_append(info->starts, (int) info->indices->len);
}

// here we should probably store information so zk'''), (PO, '''    u16Vec_append(info->type, DELETED_ROW);
    iVec_append(info->indices, row);
    dVec_append(info->vals, val);
    iVec_append(info->starts, (int) info->indices->len);
''', '''    iVec_append(info->indices, row);
    dVec_append(info->vals, val);
    end_record(info);
    u16Vec_append(info->type, DELETED_ROW);
'''), (PO, '''    dVec_append(info->vals, (double) num_of_bound_changes);
    dVec_append_array(info->vals, vals, len);
    iVec_append(info->starts, (int) info->indices->len);
''', '''    dVec_append(info->vals, (double) num_of_bound_changes);
    dVec_append_array(info->vals, vals, len);
    end_record(info);
'''))
e('save type var', (PO, '''    if (is_lhs_change)
    {
        u16Vec_append(info->type, LHS_CHANGE);
    }
    else
    {
        u16Vec_append(info->type, RHS_CHANGE);
    }
''', '''    u16Vec_append(info->type, is_lhs_change ? LHS_CHANGE : RHS_CHANGE);
'''))
e('save array loop', (PO, '''    iVec_append(info->indices, DUMMY_VALUE);
    iVec_append_array(info->indices, rows, len);
    dVec_append(info->vals, val);
    dVec_append(info->vals, ck);
    dVec_append_array(info->vals, vals, len);
''', '''    iVec_append(info->indices, DUMMY_VALUE);
    dVec_append(info->vals, val);
    dVec_append(info->vals, ck);
    for (size_t q = 0; q < len; q++)
    {
        iVec_append(info->indices, rows[q]);
        dVec_append(info->vals, vals[q]);
    }
'''))
e('save inf ptr', (PO, '''        dVec_append(info->vals, side);
        dVec_append_array(info->vals, A->x + A->p[row].start,
                          (size_t) row_sizes[row]);
        iVec_append(info->indices, row_sizes[row]);
        iVec_append_array(info->indices, A->i + A->p[row].start,
                          (size_t) row_sizes[row]);
''', '''        const int first = A->p[row].start;
        const int n_in_row = row_sizes[row];
        iVec_append(info->indices, n_in_row);
        iVec_append_array(info->indices, &A->i[first], (size_t) n_in_row);
        dVec_append(info->vals, side);
        dVec_append_array(info->vals, &A->x[first], (size_t) n_in_row);
'''))
e('save inf for', (PO, '''    for (i = 0; i < n_rows; ++i)
    {
        row = rows[i];
        side =''', '''    const int *end = rows + n_rows;
    for (const int *r = rows; r < end; ++r)
    {
        row = *r;
        side ='''))
e('T01 progress quotient', (PR, '''        (double) nnz_after_cycle >= NNZ_REMOVED_CYCLE * (double) nnz_before_cycle)''', '''        (double) nnz_after_cycle / (double) nnz_before_cycle >= NNZ_REMOVED_CYCLE)'''))
e('T01 progress integer', (PR, '''        (double) nnz_after_cycle >= NNZ_REMOVED_CYCLE * (double) nnz_before_cycle)''', '''        nnz_after_cycle * 20 >= nnz_before_cycle * 19)'''))
e('T01 progress flipped', (PR, '''        if ((double) nnz_after_phase < NNZ_REMOVED_FAST * (double) nnz_before_phase)
        {
            return FAST;
        }

        return MEDIUM;''', '''        const double limit = NNZ_REMOVED_FAST * (double) nnz_before_phase;
        return limit > (double) nnz_after_phase ? FAST : MEDIUM;'''))
e('T01 removed share', (PR, '''        if ((double) nnz_after_phase < NNZ_REMOVED_FAST * (double) nnz_before_phase)
''', '''        const double removed = (double) (nnz_before_phase - nnz_after_phase);
        if (removed > (1.0 - NNZ_REMOVED_FAST) * (double) nnz_before_phase)
'''))
