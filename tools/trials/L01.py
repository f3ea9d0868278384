import sys; import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from trial import run
L='src/core/Locks.c'; S='src/explorers/SimpleReductions.c'; N='src/explorers/StonCols.c'; C='src/core/CoreTransformation.c'; D='src/explorers/DtonsEq.c'; K='src/core/Constraints.c'
import re
txt=open('/repo/'+L).read()
def nth(old,new,n,f=L):
    """replace the n-th occurrence by giving the whole file"""
    t=open('/repo/'+f).read(); i=-1
    for _ in range(n): i=t.index(old,i+1)
    a=t.rfind('\n',0,max(t.rfind('{',0,i)-160,0)); b=min(t.find('\n',i+len(old)+60),len(t))
    return (f,t[a:b],t[a:i]+new+t[i+len(old):b])
T='''            if (A->x[j] > 0)
            {
                if (!HAS_TAG(row_tags[i], R_TAG_RHS_INF))'''
run('L01',[
 ('new sign','V',[(L,T,T.replace('> 0','< 0'))]),
 ('new tag','V',[(L,T,T.replace('RHS_INF','LHS_INF'))]),
 ('new j start','V',[(L,'for (j = start; j < end; ++j)','for (j = start + 1; j < end; ++j)')]),
 #('new rows1','V',[(L,'for (i = 0; i < A->m; ++i)','for (i = 1; i < A->m; ++i)')]),
 ('new no test','V',[(L,'''                if (!HAS_TAG(row_tags[i], R_TAG_LHS_INF))
                {
                    locks[A->i[j]].down++;
                }''','''                locks[A->i[j]].down++;''')]),
 ('new else','V',[(L,'''                if (!HAS_TAG(row_tags[i], R_TAG_LHS_INF))
                {
                    locks[A->i[j]].down++;
                }''','''                else
                {
                    locks[A->i[j]].down++;
                }''')]),
 ('new eq only','V',[(L,'''                if (!HAS_TAG(row_tags[i], R_TAG_LHS_INF))
                {
                    locks[A->i[j]].down++;
                }''','''                if (!HAS_TAG(row_tags[i], R_TAG_LHS_INF | R_TAG_EQ))
                {
                    locks[A->i[j]].down++;
                }''')]),
 ('eq2ineq flip','V',[nth('locks[cols[i]].down--','locks[cols[i]].up--',1)]),
 ('eq2ineq plus','V',[nth('locks[cols[i]].up--','locks[cols[i]].up++',1)]),
 ('ineq2eq swap','V',[nth('locks[cols[i]].down++','locks[cols[i]].up++',1)]),
 ('ineq2eq from1','V',[nth('for (int i = 0; i < len; i++)','for (int i = 1; i < len; i++)',3)]),
 ('ston 60','V',[nth('len, true);','len, false);',1,N)]),
 ('ston 94','V',[nth('len, false);','len, true);',1,N)]),
 ('ston 498','V',[(N,'update_locks_ineq_to_eq(locks, row->vals, row->cols, *row->len, true)','update_locks_ineq_to_eq(locks, row->vals, row->cols, *row->len, false)')]),
 ('ston 498 always','V',[nth('if (is_lhs_inf)','if (!is_lhs_inf)',2,N)]),
 ('ston 498 gone','V',[(N,'            update_locks_ineq_to_eq(locks, row->vals, row->cols, *row->len, true);','            ;')]),
 ('ston 523 len','V',[(N,'            update_locks_ineq_to_eq(locks, row->vals, row->cols, *row->len, false);','            if (*row->len > 2) update_locks_ineq_to_eq(locks, row->vals, row->cols, *row->len, false);')]),
 ('ca swap','V',[(S,'                    locks[A->i[j]].down--;\n                }\n                else','                    locks[A->i[j]].up--;\n                }\n                else')]),
 ('ca one sign','V',[nth('                else\n                {\n                    locks[A->i[j]].up--;\n                }','',1,S)]),
 ('ca second','V',[nth('locks[A->i[j]].up--','locks[A->i[j]].down--',2,S)]),
 ('pr up','V',[nth('locks[row->cols[i]].up++','locks[row->cols[i]].down++',1,C)]),
 ('pr inf','V',[nth('locks[row->cols[i]].down++','locks[row->cols[i]].down--',2,C)]),
 ('count no reset','V',[(L,'    lock->up = 0;\n','')]),
 ('count dec','V',[nth('lock->up++','lock->down++',1)]),
 ('count tag','V',[(L,txt[txt.index('    lock->down = 0;'):],txt[txt.index('    lock->down = 0;'):].replace('RHS_INF','LHS_INF',1))]),
 ('dton no recount','V',[(D,'    count_locks_one_column(&rowj_AT','    if (col_sizes[j] > 1) count_locks_one_column(&rowj_AT')]),
 ('dton k','V',[(D,'constraints->state->col_locks + j, row_tags','constraints->state->col_locks + k, row_tags')]),
 ('q for','Q',[(L,'for (j = start; j < end; ++j)\n','for (j = end - 1; j >= start; --j)\n')]),
 ('q tern','Q',[(L,'''            assert(vals[i] != 0);
            if (vals[i] > 0)
            {
                locks[cols[i]].down--;
            }
            else
            {
                locks[cols[i]].up--;
            }''','''            int *lk = vals[i] > 0 ? &locks[cols[i]].down : &locks[cols[i]].up;
            *lk -= 1;''')]),
 ('q neg','Q',[nth('if (vals[i] > 0)\n            {\n                locks[cols[i]].down--;\n            }\n            else\n            {\n                locks[cols[i]].up--;','if (vals[i] < 0)\n            {\n                locks[cols[i]].up--;\n            }\n            else\n            {\n                locks[cols[i]].down--;',1)]),
 ('q val','Q',[(S,'                if (A->x[j] > 0)\n                {\n                    locks[A->i[j]].down--;','                const double v = A->x[j];\n                if (v > 0)\n                {\n                    locks[A->i[j]].down--;')]),
 ('q ptr','Q',[(S,'                    locks[A->i[j]].down--;\n                }\n                else\n                {\n                    locks[A->i[j]].up--;','                    Lock *lk = locks + A->i[j];\n                    lk->down--;\n                }\n                else\n                {\n                    locks[A->i[j]].up--;')]),
 ('q bools','Q',[(L,T,'''            const bool ri = HAS_TAG(row_tags[i], R_TAG_RHS_INF);
            if (A->x[j] > 0)
            {
                if (!ri)''')]),
 ('q cnt','Q',[(L,txt[txt.index('{\n    lock->up = 0;'):],'''{
    int up = 0, down = 0;
    for (int i = 0; i < *col->len; ++i)
    {
        const RowTag t = row_tags[col->cols[i]];
        const int r = HAS_TAG(t, R_TAG_RHS_INF) ? 0 : 1;
        const int l = HAS_TAG(t, R_TAG_LHS_INF) ? 0 : 1;
        if (col->vals[i] > 0)
        {
            up += r;
            down += l;
        }
        else
        {
            down += r;
            up += l;
        }
    }
    lock->up = up;
    lock->down = down;
}
''')]),
 ('q xor','Q',[(L,txt[txt.index('    if (to_upper)'):txt.index('void update_locks_ineq_to_eq')],'''    for (int i = 0; i < len; i++)
    {
        if ((vals[i] > 0) == to_upper)
        {
            locks[cols[i]].down--;
        }
        else
        {
            locks[cols[i]].up--;
        }
    }
}
''')]),
])
