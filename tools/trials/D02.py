import sys; import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from trial import run
F='src/explorers/Simple_dual_fix.c'; C='src/explorers/Parallel_cols.c'; N='src/explorers/StonCols.c'; S='src/explorers/SimpleReductions.c'; P='src/explorers/Primal_propagation.c'
run('D02',[
 ('sdf down->up','V',[(F,'if (ck > 0 && lock.down == 0)','if (ck > 0 && lock.up == 0)')]),
 ('sdf no lock','V',[(F,'if (ck < 0 && lock.up == 0)','if (ck < 0)')]),
 ('sdf sign','V',[(F,'if (ck > 0 && lock.down == 0)','if (ck < 0 && lock.down == 0)')]),
 ('sdf >=','Q',[(F,'if (ck < 0 && lock.up == 0)','if (!(ck >= 0) && lock.up == 0)')]),
 ('sdf zero verdict','V',[(F,'if (ck > 0 && lock.down == 0)','if (ck >= 0 && lock.down == 0)')]),
 ('sdf verdict tag','V',[(F,'''        if (HAS_TAG(col_tag, C_TAG_LB_INF))
        {
            return UNBNDORINFEAS;''','''        if (HAS_TAG(col_tag, C_TAG_UB_INF))
        {
            return UNBNDORINFEAS;''')]),
 ('sdf inf sign','V',[(F,'iVec_append(cols_to_inf, -col);','iVec_append(cols_to_inf, col);')]),
 ('sdf inf tag','V',[(F,'''            if (HAS_TAG(col_tag, C_TAG_UB_INF))
            {
                iVec_append''','''            if (HAS_TAG(col_tag, C_TAG_LB_INF))
            {
                iVec_append''')]),
 ('sdf inf lock','V',[(F,'''        if (lock.up == 0)
        {
            if''','''        if (lock.up <= 1)
        {
            if''')]),
 ('sdf fix other','V',[(F,'''                fix_col(constraints, col, lb, ck);''','''                fix_col(constraints, col, ub, ck);''')]),
 ('sdf refactor','Q',[(F,'if (ck > 0 && lock.down == 0)','const bool freely = lock.down == 0;\n    const bool pays = ck > 0;\n    if (pays & freely)')]),
 ('sdf ptr','Q',[(F,'double lb, double ub, Lock lock,','double lb, double ub, Lock lock2,'),(F,'assert(!HAS_TAG(col_tag, C_TAG_INACTIVE));\n    // ---','const Lock *lk = &lock2;\n    const Lock lock = *lk;\n    // ---')]),
 ('pc tag','V',[(C,'fix_xk_to_lower = HAS_TAG(col_tags[j], C_TAG_UB_INF);','fix_xk_to_lower = HAS_TAG(col_tags[j], C_TAG_LB_INF);')]),
 ('pc ratio','V',[(C,'''                if (ck > ratio * cj)
                {
                    if (ratio > 0)''','''                if (ck > ratio * cj)
                {
                    if (ratio < 0)''')]),
 ('pc cmp','V',[(C,'if (ck > ratio * cj)','if (ck < ratio * cj)')]),
 ('pc cmp cost','V',[(C,'if (ck > ratio * cj)','if (ck > cj)')]),
 ('pc upper','V',[(C,'fix_xj_to_upper = HAS_TAG(col_tags[k], C_TAG_UB_INF);','fix_xj_to_upper = HAS_TAG(col_tags[k], C_TAG_LB_INF);')]),
 ('pc lower','V',[(C,'fix_xj_to_lower = HAS_TAG(col_tags[k], C_TAG_UB_INF);','fix_xj_to_upper = HAS_TAG(col_tags[k], C_TAG_UB_INF);')]),
 ('pc verdict','V',[(C,'''                    if (HAS_TAG(col_tags[j], C_TAG_UB_INF))
                    {
                        return UNB''','''                    if (HAS_TAG(col_tags[j], C_TAG_LB_INF))
                    {
                        return UNB''')]),
 ('pc fix bound','V',[(C,'fix_col(constraints, k, bounds[k].lb, ck);','fix_col(constraints, k, bounds[k].ub, ck);')]),
 ('pc refactor','Q',[(C,'if (ck > ratio * cj)','const double adv = ck - ratio * cj;\n                if (adv > 0)')]),
 ('pc or','V',[(C,'fix_xj_to_upper = HAS_TAG(col_tags[k], C_TAG_LB_INF);','fix_xj_to_upper = HAS_TAG(col_tags[k], (C_TAG_LB_INF | C_TAG_UB_INF));')]),
 ('ston active','V',[(N,'if ((ck > 0 && Aik > 0) || (ck < 0 && Aik < 0))\n        {\n            if (is_lhs_inf)','if ((ck > 0 && Aik > 0) || (ck < 0 && Aik > 0))\n        {\n            if (is_lhs_inf)')]),
 ('ston side','V',[(N,'new_side = *row->lhs;\n        }\n        // rhs','new_side = *row->rhs;\n        }\n        // rhs')]),
 ('ston verdict','V',[(N,'if (is_lhs_inf)\n            {\n                return UNB','if (is_rhs_inf)\n            {\n                return UNB')]),
 ('ston eq','V',[(N,'if ((ck < 0 && Aik > 0 && not_at_ub) || (ck > 0 && Aik < 0 && not_at_lb))','if ((ck > 0 && Aik > 0 && not_at_ub) || (ck > 0 && Aik < 0 && not_at_lb))')]),
 ('ston eq0','V',[(N,'if ((ck < 0 && Aik > 0 && not_at_ub) || (ck > 0 && Aik < 0 && not_at_lb))','if ((ck <= 0 && Aik > 0 && not_at_ub) || (ck > 0 && Aik < 0 && not_at_lb))')]),
 ('ston lhs','V',[(N,'*row->rhs = *row->lhs;','*row->lhs = *row->rhs;')]),
 ('ston refactor','Q',[(N,'if ((ck < 0 && Aik > 0 && not_at_ub) || (ck > 0 && Aik < 0 && not_at_lb))','const bool opposite = (ck < 0) != (Aik < 0) && ck != 0;\n    if (opposite && (Aik > 0 ? not_at_ub : not_at_lb))')]),
 ('empty cost','V',[(S,'else if (c[k] < 0)','else if (c[k] > 0)')]),
 ('empty tag','V',[(S,"""            if (HAS_TAG(col_tags[k], C_TAG_LB_INF))
            {
                return UNB""","""            if (HAS_TAG(col_tags[k], C_TAG_UB_INF))
            {
                return UNB""")]),
 ('empty bound','V',[(S,'val = bounds[k].ub;\n            bounds[k].lb = bounds[k].ub;','val = bounds[k].lb;\n            bounds[k].ub = bounds[k].lb;')]),
 ('stonfix','V',[(N,'if ((ck > 0 && Aik > 0 && is_lhs_inf) || (ck > 0 && Aik < 0 && is_rhs_inf))','if ((ck > 0 && Aik > 0 && is_lhs_inf) || (ck > 0 && Aik < 0 && is_lhs_inf))')]),
 ('stonfix2','V',[(N,'if ((ck < 0 && Aik < 0 && is_lhs_inf) || (ck < 0 && Aik > 0 && is_rhs_inf))','if ((ck < 0 && Aik < 0 && is_lhs_inf) || (ck < 0 && Aik > 0))')]),
 ('stonfix ub','V',[(N,'fix_col_ston(*col->ub, Aik','fix_col_ston(*col->lb, Aik')]),
 ('stonfix tag','V',[(N,"""        if (is_ub_inf)
        {
            return UNB""","""        if (is_lb_inf)
        {
            return UNB""")]),
 ('prop fix','V',[(P,'if (new_lb >= ub || (ub - new_lb) * get_max_abs(vals, len) <= FEAS_TOL)','if (new_lb <= ub || (ub - new_lb) * get_max_abs(vals, len) <= FEAS_TOL)')]),
 ('prop fix2','V',[(P,'if (new_ub <= lb || (new_ub - lb) * get_max_abs(vals, len) <= FEAS_TOL)','if (new_ub <= lb || (new_ub - lb) * get_max_abs(vals, len) >= FEAS_TOL)')]),
 ('R prod','Q',[(N,'if ((ck > 0 && Aik > 0) || (ck < 0 && Aik < 0))\n        {\n            if (is_lhs_inf)','const double dir = ck * Aik;\n        if (dir > 0)\n        {\n            if (is_lhs_inf)')]),
 ('R sgn','Q',[(N,'if ((ck > 0 && Aik > 0) || (ck < 0 && Aik < 0))\n        {\n            if (is_lhs_inf)','const int sc = (ck > 0) - (ck < 0), sa = (Aik > 0) - (Aik < 0);\n        if (sc * sa > 0)\n        {\n            if (is_lhs_inf)')]),
 ('R empty','Q',[(S,'else if (c[k] < 0)','else if (!(c[k] >= 0) || signbit(c[k]))'),(S,'#include "SimpleReductions.h"','#include "SimpleReductions.h"\n#include <math.h>')]),
 ('R sdf loop','Q',[(F,'(locks[k].up > 0 && locks[k].down > 0))','!(locks[k].up == 0 || locks[k].down == 0))')]),
 ('R sdf copy','Q',[(F,'iVec_append(cols_to_inf, -col);','const int neg = 0 - col;\n                iVec_append(cols_to_inf, neg);')]),
 ('R stonfix','Q',[(N,'if ((ck > 0 && Aik > 0 && is_lhs_inf) || (ck > 0 && Aik < 0 && is_rhs_inf))','const bool nothing_below = Aik > 0 ? is_lhs_inf : is_rhs_inf;\n    if (ck > 0 && nothing_below)')]),
 ('R stonfix copy','Q',[(N,'fix_col_ston(*col->lb, Aik, row','double target = *col->lb;\n        fix_col_ston(target, Aik, row')]),
 ('R pc','Q',[(C,"""                        fix_xk_to_lower = HAS_TAG(col_tags[j], C_TAG_UB_INF);
                        fix_xj_to_upper = HAS_TAG(col_tags[k], C_TAG_LB_INF);""","""                        if (HAS_TAG(col_tags[k], C_TAG_LB_INF)) fix_xj_to_upper = true;
                        if (HAS_TAG(col_tags[j], C_TAG_UB_INF)) fix_xk_to_lower = true;""")]),
 ('R pc2','Q',[(C,'if (ck > ratio * cj)','const bool kworse = ratio * cj < ck;\n                if (kworse)')]),
 ('R pc3','Q',[(C,'                if (ck > ratio * cj)\n                {\n                    if (ratio > 0)','                if (ck > ratio * cj)\n                {\n                    if (ak0 * aj_vals[0] > 0)')]),
 ('R prop','Q',[(P,'if (new_lb >= ub || (ub - new_lb) * get_max_abs(vals, len) <= FEAS_TOL)','const double gap = ub - new_lb;\n        if (gap <= 0 || gap * get_max_abs(vals, len) <= FEAS_TOL)')]),
])
