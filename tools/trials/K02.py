import sys; import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from trial import run
A='src/core/Activity.c'; T='src/core/CoreTransformation.c'; S='src/explorers/SimpleReductions.c'; D='src/explorers/DtonsEq.c'; C='src/explorers/Parallel_cols.c'; N='src/explorers/StonCols.c'; P='src/explorers/Primal_propagation.c'
run('K02',[
 ('delta sign','V',[(A,'act->max += (new_bound - old_bound) * coeff;','act->max -= (new_bound - old_bound) * coeff;')]),
 ('delta min for max','V',[(A,'act->max += (new_bound - old_bound) * coeff;','act->min += (new_bound - old_bound) * coeff;')]),
 ('old twice','V',[(A,'act->max += (new_bound - old_bound) * coeff;','act->max += (new_bound - 2.0 * old_bound) * coeff;')]),
 ('dec always','V',[(A,'''            else if (!finite_bound)
            {
                act->n_inf_max--;''','''            else
            {
                act->n_inf_max--;''')]),
 ('no recompute','V',[(A,'''                if (act->n_inf_max == 0)
                {
                    act->max = compute_max_act_no_tags(vals, cols, len, bounds);
                }''','')]),
 ('recompute min','V',[(A,'act->max = compute_max_act_no_tags(vals, cols, len, bounds);','act->max = compute_min_act_no_tags(vals, cols, len, bounds);')]),
 ('recompute only','V',[(A,'''            else if (!finite_bound)
            {
                act->n_inf_min--;
''','''            else if (!finite_bound)
            {
''')]),
 ('coeff sign','V',[(A,'''        if (coeff < 0)
        {
            if (act->n_inf_max == 0)''','''        if (coeff > 0)
        {
            if (act->n_inf_max == 0)''')]),
 ('rm lb no inc','V',[(A,'''                act->min -= col->vals[ii] * bound;
            }

            act->n_inf_min++;''','''                act->min -= col->vals[ii] * bound;
            }
''')]),
 ('rm ub wrong inc','V',[(A,'''                act->max -= col->vals[ii] * bound;
            }

            act->n_inf_max++;''','''                act->max -= col->vals[ii] * bound;
            }

            act->n_inf_min++;''')]),
 ('coefchange lb','V',[(A,'act->min -= old_coeff * ub;','act->min -= old_coeff * lb;')]),
 ('coefchange add','V',[(A,'act->min += new_coeff * lb;','act->min += new_coeff * ub;')]),
 ('coefchange no inc','V',[(A,'                act->min += new_coeff * lb;\n            }\n        }\n        else\n        {\n            act->n_inf_min++;','                act->min += new_coeff * lb;\n            }\n        }\n        else\n        {')]),
 ('coefchange no dec','V',[(A,'            act->n_inf_max--;\n        }\n    }\n    else if (old_coeff','        }\n    }\n    else if (old_coeff')]),
 ('coefchange minus','V',[(A,'act->max += new_coeff * ub;','act->max -= new_coeff * ub;')]),
 ('nots lb','V',[(A,'            assert(!IS_NEG_INF(bounds[cols[j]].lb));\n            max_act += vals[j] * bounds[cols[j]].lb;','            max_act += vals[j] * bounds[cols[j]].ub;')]),
 ('first max','V',[(A,'act->max += vals[j] * bounds[cols[j]].ub;','act->max += vals[j] * bounds[cols[j]].lb;')]),
 ('first count','V',[(A,'                if (HAS_TAG(col_tags[cols[j]], C_TAG_UB_INF))\n                {\n                    act->n_inf_min++;\n                }\n','')]),
 ('first count tag','V',[(A,'                if (HAS_TAG(col_tags[cols[j]], C_TAG_UB_INF))\n                {\n                    act->n_inf_max++;','                if (HAS_TAG(col_tags[cols[j]], C_TAG_LB_INF))\n                {\n                    act->n_inf_max++;')]),
 ('first sign','V',[(A,'                if (vals[j] > 0)\n                {\n                    assert(!HAS_TAG(col_tags[cols[j]], C_TAG_LB_INF));','                if (vals[j] < 0)\n                {')]),
 ('fixedcol args','Q',[(A,'act, vals[ii], old_ub, val, !is_ub_inf, false,','act, vals[ii], old_lb, val, !is_ub_inf, false,')]),
 ('fixedcol inf','V',[(A,'act, vals[ii], old_ub, val, !is_ub_inf, false,','act, vals[ii], old_ub, val, is_ub_inf, false,')]),
 ('fixedcol lower','V',[(A,'act, vals[ii], old_lb, val, !is_lb_inf, true,','act, vals[ii], old_lb, val, !is_lb_inf, false,')]),
 ('fix no update','Q',[(T,'bool ub_update = (is_ub_inf || val != old_ub);','bool ub_update = is_ub_inf;')]),
 ('update_lb no act','V',[(T,'''        update_activities_bound_change(activities, constraints->A, bounds, vals,
                                       rows, len, lb, new_lb, !is_lb_inf, true,
                                       data->updated_activities HUGE_BOUND_ARG);''','')]),
 ('update_lb not lower','V',[(T,'rows, len, lb, new_lb, !is_lb_inf, true,','rows, len, lb, new_lb, !is_lb_inf, false,')]),
 ('update_ub swapped','V',[(T,'rows, len, ub, new_ub, !is_ub_inf, false,','rows, len, new_ub, ub, !is_ub_inf, false,')]),
 ('update_ub inf flag','V',[(T,'rows, len, ub, new_ub, !is_ub_inf, false,','rows, len, ub, new_ub, true, false,')]),
 ('fixed min','V',[(S,'min -= contribution','min += contribution')]),
 ('dton no subst','V',[(D,'''            update_activity_coeff_change(activities + q, bounds[k].lb, bounds[k].ub,
                                         coeffs.old_coeff_subst, 0.0, col_tags[k]);''','            NO_RECOMPUTE;')]),
 ('dton tag of other','V',[(D,'coeffs.old_coeff_subst, 0.0, col_tags[k]);','coeffs.old_coeff_subst, 0.0, col_tags[j]);')]),
 ('dton bounds of other','V',[(D,'update_activity_coeff_change(activities + q, bounds[k].lb, bounds[k].ub,','update_activity_coeff_change(activities + q, bounds[j].lb, bounds[j].ub,')]),
 ('dton recompute','V',[(D,'''            activities[sub_row.i].min = compute_min_act_no_tags(
                sub_row.vals, sub_row.cols, *sub_row.len, bounds);''','')]),
 ('stoncol add','V',[(N,'act->min -= lb * Aik;','act->min += lb * Aik;')]),
 ('stoncol no dec','V',[(N,'            act->n_inf_max--;','')]),
 ('stoncol dec cond','V',[(N,'(Aik < 0 && HAS_TAG(*col->tag, C_TAG_UB_INF)))\n    {\n        act->n_inf_min--;','(Aik < 0 && HAS_TAG(*col->tag, C_TAG_LB_INF)))\n    {\n        act->n_inf_min--;')]),
 ('recount sign','V',[(A,'            continue;\n        }\n\n        if (vals[j] > 0)\n        {\n            if (HAS','            continue;\n        }\n\n        if (vals[j] < 0)\n        {\n            if (HAS')]),
 # refactorings
 ('first locals','Q',[(A,'''        if (act->n_inf_max == 0)
        {
            for (j = start; j < end; ++j)
            {''','''        if (act->n_inf_max == 0)
        {
            double s = 0.0;
            for (j = start; j < end; ++j)
            {
                s += vals[j] * ((vals[j] > 0) ? bounds[cols[j]].ub : bounds[cols[j]].lb);
            }
            act->max = s;
            for (j = start; j < start; ++j)
            {''')]),
 ('delta local','Q',[(A,'act->max += (new_bound - old_bound) * coeff;','const double delta = coeff * (new_bound - old_bound);\n                act->max = act->max + delta;')]),
 ('delta split','Q',[(A,'act->min += (new_bound - old_bound) * coeff;','act->min -= coeff * old_bound;\n                act->min += coeff * new_bound;')]),
 ('ptr choice','Q',[(A,'''        if (coeff < 0)
        {
            if (act->n_inf_max == 0)
            {
                assert(finite_bound);
                act->max += (new_bound - old_bound) * coeff;
            }
            else if (!finite_bound)
            {
                act->n_inf_max--;

                if (act->n_inf_max == 0)
                {
                    act->max = compute_max_act_no_tags(vals, cols, len, bounds);
                }
            }

            return MAX_ALTERED;
        }''','''        if (coeff < 0)
        {
            int *n_inf = &act->n_inf_max;
            if (*n_inf == 0)
            {
                act->max += (new_bound - old_bound) * coeff;
                return MAX_ALTERED;
            }
            if (finite_bound)
            {
                return MAX_ALTERED;
            }
            *n_inf -= 1;
            if (*n_inf == 0)
            {
                act->max = compute_max_act_no_tags(vals, cols, len, bounds);
            }
            return MAX_ALTERED;
        }''')]),
 ('rm lb ptr','Q',[(A,'''        if (col->vals[ii] > 0)
        {
            if (act->n_inf_min == 0)
            {
                act->min -= col->vals[ii] * bound;
            }

            act->n_inf_min++;
        }
        else if (col->vals[ii] < 0)
        {
            if (act->n_inf_max == 0)
            {
                act->max -= col->vals[ii] * bound;
            }
            act->n_inf_max++;
        }
''','''        const double v = col->vals[ii];
        if (v == 0)
        {
            continue;
        }
        double *side = (v > 0) ? &act->min : &act->max;
        int *n_inf = (v > 0) ? &act->n_inf_min : &act->n_inf_max;
        if (*n_inf == 0)
        {
            *side -= v * bound;
        }
        *n_inf = *n_inf + 1;
''')]),
 ('fixed order','Q',[(S,'double contribution = vals[j] * ub;','const double contribution = bounds[col].ub * vals[j];')]),
 ('nots ternary','Q',[(A,'''        if (vals[j] > 0)
        {
            assert(!IS_POS_INF(bounds[cols[j]].ub));
            max_act += vals[j] * bounds[cols[j]].ub;
        }
        else
        {
            assert(!IS_NEG_INF(bounds[cols[j]].lb));
            max_act += vals[j] * bounds[cols[j]].lb;
        }''','''        const Bound b = bounds[cols[j]];
        max_act += vals[j] * (vals[j] > 0 ? b.ub : b.lb);''')]),
 ('coef helper','Q',[(A,'''Altered_Activity update_activity_coeff_change(''','''static void take_off(double *act, int n_inf, double c, double b)
{
    if (n_inf == 0)
    {
        *act -= c * b;
    }
}

Altered_Activity update_activity_coeff_change('''),(A,'''            if (act->n_inf_min == 0)
            {
                act->min -= old_coeff * lb;
            }''','''            take_off(&act->min, act->n_inf_min, old_coeff, lb);''')]),
 ('dton swapped calls','Q',[(D,'''        altered1 = update_activity_coeff_change(activities + q, bounds[j].lb,
                                                bounds[j].ub, coeffs.old_coeff_stay,
                                                coeffs.new_coeff_stay, col_tags[j]);
''',''),(D,'''                                         coeffs.old_coeff_subst, 0.0, col_tags[k]);
''','''                                         coeffs.old_coeff_subst, 0.0, col_tags[k]);
        altered1 = update_activity_coeff_change(activities + q, bounds[j].lb,
                                                bounds[j].ub, coeffs.old_coeff_stay,
                                                coeffs.new_coeff_stay, col_tags[j]);
''')]),
])
