import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mk import make
from seeds1 import H, PR
from seeds2 import CNT, WR

make('V02-no-rows', 'V02',
     'a problem all of whose rows are removed while columns remain, and an allocator that does not return zeroed memory',
     'the row pointers of a reduced problem without rows are never written',
     [(PR, '''    for (int i = 0; i < A->m + 1; i++)
    {
        reduced_prob->Ap[i] = A->p[i].start;
    }
''', '''    if (A->nnz > 0)
    {
        for (int i = 0; i < A->m + 1; i++)
        {
            reduced_prob->Ap[i] = A->p[i].start;
        }
    }
''')],
     H + r'''
extern void *__real_malloc(size_t);
void *__wrap_malloc(size_t n){ void *p=__real_malloc(n?n:1); if (p) memset(p, 0x5a, n?n:1); return p; }
int main(void){
  double Ax[]={1,1,1,-2}; int Ai[]={0,1,0,1}; int Ap[]={0,2,4};
  double lhs[]={-INF_,-INF_}, rhs[]={INF_,INF_}, lb[]={-1,-1}, ub[]={1,1}, c[]={0,0};
  Settings *s=default_settings(); s->verbose=false;
  Presolver *p=new_presolver(Ax,Ai,Ap,2,2,4,lhs,rhs,lb,ub,c,s);
  int st=run_presolver(p);
  printf("status %d m %zu n %zu Ap[0] %d\n",st,p->reduced_prob->m,p->reduced_prob->n,p->reduced_prob->Ap[0]);
  int bad = p->reduced_prob->Ap[p->reduced_prob->m] != (int) p->reduced_prob->nnz || p->reduced_prob->Ap[0] != 0;
  free_presolver(p); free_settings(s); return bad; }
''', flags='-Wl,--wrap=malloc')

make('V02-stale-matrix', 'V02',
     'a problem so much smaller after presolve that the arrays of its matrix are moved when they are shrunk',
     'the reduced problem points to the coefficient arrays as they were before the final cleaning released their extra space',
     [(PR, '''    problem_clean(prob, true);
    DEBUG(run_debugger(prob->constraints, true));
''', '''    presolver->reduced_prob->Ax = A->x;
    presolver->reduced_prob->Ai = A->i;
    problem_clean(prob, true);
    DEBUG(run_debugger(prob->constraints, true));
'''), (PR, '''    reduced_prob->Ax = A->x;
    reduced_prob->Ai = A->i;
''', '')],
     H + r'''
extern void *__real_realloc(void*,size_t);
/* an allocator whose realloc always moves the block (as the C standard allows) */
#include <malloc.h>
void *__wrap_realloc(void*p,size_t n){ if(!p) return malloc(n?n:1); size_t o=malloc_usable_size(p);
  void*q=malloc(n?n:1); memcpy(q,p,n<o?n:o); memset(p,0x5a,o); return q; }
int main(void){
  double Ax[]={1,2,3, 1,-1,5, 1}; int Ai[]={0,1,2,0,1,2,1}; int Ap[]={0,3,6,7};
  double lhs[]={-INF_,1,-INF_}, rhs[]={8,INF_,4}, lb[]={-9,-9,-9}, ub[]={9,9,9}, c[]={1,-1,2};
  Settings *s=default_settings(); set_settings_false(s);
  Presolver *p=new_presolver(Ax,Ai,Ap,3,3,7,lhs,rhs,lb,ub,c,s);
  int st=run_presolver(p); PresolvedProblem *r=p->reduced_prob; int bad=0;
  printf("status %d m %zu n %zu nnz %zu\n",st,r->m,r->n,r->nnz);
  for(size_t i=0;i<r->nnz;i++){ printf("%g@%d ",r->Ax[i],r->Ai[i]); bad|= r->Ai[i]<0||r->Ai[i]>2||r->Ax[i]!=Ax[i]; }
  return bad; }
''', flags='-Wl,--wrap=realloc')

PO = 'src/core/Postsolver.c'
make('S03-consumed', 'S03',
     'two calls of postsolve on the same presolver',
     'postsolve empties the list of reductions once it has undone them, so a second call undoes nothing',
     [(PO, '''    // polish_z(sol, lbs, ubs);
''', '''    // polish_z(sol, lbs, ubs);

    // all reductions have been undone
    info->type->len = 0;
    info->starts->len = 1;
''')],
     H + r'''
int main(void){
  double Ax[]={1,2,3, 2,-1,5, 1}; int Ai[]={0,1,2,0,1,2,1}; int Ap[]={0,3,6,7};
  double lhs[]={-INF_,1,2}, rhs[]={8,INF_,2}, lb[]={-9,-9,-9}, ub[]={9,9,9}, c[]={1,-1,2};
  Settings *s=default_settings(); set_settings_false(s); s->ston_cols=false;
  Presolver *p=new_presolver(Ax,Ai,Ap,3,3,7,lhs,rhs,lb,ub,c,s);
  int st=run_presolver(p); PresolvedProblem *r=p->reduced_prob;
  printf("status %d m %zu n %zu\n",st,r->m,r->n);
  double x[3]={1,1,1}, y[3]={0,0,0}, z[3]={0,0,0}; int bad=0;
  for(int k=0;k<2;k++){ postsolve(p,x,y,z); for(int j=0;j<3;j++){ printf("%g ",p->sol->x[j]); bad|=!isfinite(p->sol->x[j]); } puts(""); }
  free_presolver(p); free_settings(s); return bad; }
''')

make('S03-cached-extreme', 'S03',
     'a variable fixed at infinity by dual arguments, and two calls of postsolve with different solutions of the reduced problem',
     'postsolve keeps the extreme value found for a variable fixed at infinity in the record, so later calls start from it',
     [(PO, '''    assert(!IS_ABS_INF(extreme_val));
    sol->x[col] = extreme_val;
''', '''    assert(!IS_ABS_INF(extreme_val));
    sol->x[col] = extreme_val;
    ((double *) vals)[1] = extreme_val;
''')],
     H + r'''
static double run(double *v, int nv){
  double Ax[]={-1,1, 1,1,1, 1,-1,2}; int Ai[]={0,1, 1,2,3, 1,2,3}; int Ap[]={0,2,5,8};
  double lhs[]={-INF_,1,-INF_}, rhs[]={3,INF_,9}, lb[]={-50,-9,-9,-9}, ub[]={INF_,9,9,9}, c[]={0,-1,2,1};
  Settings *s=default_settings(); set_settings_false(s); s->dual_fix=true;
  Presolver *p=new_presolver(Ax,Ai,Ap,3,4,8,lhs,rhs,lb,ub,c,s);
  int st=run_presolver(p); PresolvedProblem *r=p->reduced_prob;
  printf("status %d m %zu n %zu: ",st,r->m,r->n);
  double y[3]={0,0,0}, z[4]={0,0,0,0}, o=0;
  for(int k=0;k<nv;k++){ double x[4]={v[k],v[k],v[k],v[k]}; postsolve(p,x,y,z); o=p->sol->x[0]; }
  printf("%g\n",o); free_presolver(p); free_settings(s); return o; }
int main(void){ double a[]={8,1}, b[]={1}; return run(a,2) != run(b,1); }
''')
