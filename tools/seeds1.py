import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mk import make
H = r'''#include "PSLP_API.h"
#include "PSLP_sol.h"
#include "PSLP_stats.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define INF_ INFINITY
#define N(a) (sizeof(a)/sizeof((a)[0]))
'''
PR = 'src/core/Presolver.c'

make('V01-fast-overwrite', 'V01',
     'a singleton column proving unboundedness while another singleton column was eliminated, dual fix switched off',
     'the UNBNDORINFEAS verdict of the singleton-column reduction is overwritten by the trivial reductions',
     [(PR, '''        assert(prob->constraints->state->empty_rows->len == 0);
        status |= run_trivial_explorers(prob, stgs);
    }

    if (stgs->dton_eq)''', '''        assert(prob->constraints->state->empty_rows->len == 0);
        status = run_trivial_explorers(prob, stgs);
    }

    if (stgs->dton_eq)''')],
     H + r'''
int main(void){
  /* x2 singleton, c<0, coefficient > 0, rhs infinite, unbounded above: unbounded */
  double Ax[]={1,1,1, 1,2}; int Ai[]={0,1,2, 0,1}; int Ap[]={0,3,5,5};
  double lhs[]={1,-10}, rhs[]={INF_,10}, lb[]={0,0,0}, ub[]={5,5,INF_}, c[]={1,-1,-1};
  Settings *s=default_settings(); set_settings_false(s); s->ston_cols=true;
  Presolver *p=new_presolver(Ax,Ai,Ap,2,3,5,lhs,rhs,lb,ub,c,s);
  int st=run_presolver(p); printf("status %d\n",st);
  free_presolver(p); free_settings(s);
  return st==UNBNDORINFEAS?0:1; }
''')

make('V01-ston-row-lhs', 'V01',
     'a singleton inequality row with negative coefficient and a finite lhs that contradicts the bounds of the variable',
     'infeasibility found while turning the lhs of a singleton row into a variable bound is dropped',
     [('src/explorers/SimpleReductions.c', '''                (!lhs_inf && update_ub(constrs, k, lhs / aik,
                                       row HUGE_BOUND_IS_OK) == INFEASIBLE))
            {
                return INFEASIBLE;
            }''', '''                (!lhs_inf && update_ub(constrs, k, lhs / aik,
                                       row HUGE_BOUND_IS_OK) == UNBNDORINFEAS))
            {
                return INFEASIBLE;
            }''')],
     H + r'''
int main(void){
  double Ax[]={-2, 1,2, 1,3}; int Ai[]={0, 0,1, 0,1}; int Ap[]={0,1,3,5,5};
  double lhs[]={-2,-100,-100}, rhs[]={INF_,100,100}, lb[]={4,0}, ub[]={9,5}, c[]={1,-1};
  Settings *s=default_settings(); set_settings_false(s);
  Presolver *p=new_presolver(Ax,Ai,Ap,3,2,5,lhs,rhs,lb,ub,c,s);
  int st=run_presolver(p); printf("status %d\n",st);
  free_presolver(p); free_settings(s);
  return st==INFEASIBLE?0:1; }
''')

make('A02-fast-dton-gate', 'A02',
     'dton_eq off and ston_cols on, and a doubleton equality row',
     'doubleton equality rows are eliminated although the switch is off when singleton columns are enabled',
     [(PR, '    if (stgs->dton_eq)\n', '    if (stgs->dton_eq || (stgs->ston_cols && stgs->dual_fix))\n')],
     H + r'''
int main(void){
  double Ax[]={1,1, 1,2,1, 1,3,1, 2,1,1}; int Ai[]={0,1, 0,1,2, 0,1,2, 0,1,2}; int Ap[]={0,2,5,8,11,11};
  double lhs[]={5,-50,-60,-70}, rhs[]={5,50,60,70}, lb[]={-9,-9,-9}, ub[]={9,9,9}, c[]={1,-1,1};
  Settings *s=default_settings(); set_settings_false(s); s->ston_cols=true; s->dual_fix=true;
  Presolver *p=new_presolver(Ax,Ai,Ap,4,3,11,lhs,rhs,lb,ub,c,s);
  int st=run_presolver(p); printf("status %d n %zu\n",st,p->reduced_prob->n);
  int bad = p->reduced_prob->n!=3 || p->reduced_prob->m!=4;
  free_presolver(p); free_settings(s);
  return bad; }
''')

make('A02-setter-misses', 'A02',
     'settings whose finite_bound_tightening was true before set_settings_false',
     'set_settings_false leaves finite bound tightening switched on',
     [(PR, '    stgs->finite_bound_tightening = false;\n', '    stgs->finite_bound_tightening &= stgs->primal_propagation;\n'),
      (PR, '    stgs->primal_propagation = false;\n    stgs->dual_fix = false;\n    // stgs->clean_small_coeff = false;\n', '    stgs->dual_fix = false;\n    // stgs->clean_small_coeff = false;\n'),
      (PR, '    stgs->relax_bounds = false;\n    stgs->verbose = false;\n', '    stgs->relax_bounds = false;\n    stgs->primal_propagation = false;\n    stgs->verbose = false;\n')],
     H + r'''
int main(void){ Settings *s=default_settings(); set_settings_false(s); int bad=s->finite_bound_tightening; free_settings(s); return bad; }
''')

make('A03-postsolve-msg', 'A03',
     'a postsolve whose time measurement rounds to more than the threshold, verbose off',
     'a message is printed by postsolve although verbose is off',
     [(PR, '    if (presolver->stgs->verbose)\n    {\n        printf("PSLP postsolve time', '    if (presolver->stgs->verbose || stats->n_cols_reduced == 0)\n    {\n        printf("PSLP postsolve time')],
     H + r'''
int main(void){
  double Ax[]={1,1}; int Ai[]={0,1}; int Ap[]={0,2,2};
  double lhs[]={-INF_}, rhs[]={5}, lb[]={0,0}, ub[]={3,3}, c[]={1,1};
  Settings *s=default_settings(); s->verbose=false;
  Presolver *p=new_presolver(Ax,Ai,Ap,1,2,2,lhs,rhs,lb,ub,c,s);
  freopen("out.txt","w",stdout);
  run_presolver(p); double z[4]={0}; postsolve(p,z,z,z);
  fflush(stdout); long n=ftell(stdout);
  free_presolver(p); free_settings(s);
  return n!=0; }
''')

make('T01-expired-ignored', 'T01',
     'a time limit that expires while the next phase is a medium one',
     'an expired time limit is ignored when the fast phase removed few non-zeros',
     [(PR, '        terminate =\n            update_termination(', '        terminate = curr_complexity != FAST &&\n            update_termination(')],
     H + r'''
int main(void){
  double Ax[]={1,1,1, 1,2,1, 2,4,2}; int Ai[]={0,1,2, 0,1,2, 0,1,2}; int Ap[]={0,3,6,9,9};
  double lhs[]={-50,-60,-70}, rhs[]={50,60,70}, lb[]={-9,-9,-9}, ub[]={9,9,9}, c[]={1,-1,1};
  Settings *s=default_settings(); set_settings_false(s); s->parallel_rows=true; s->max_time=0.0;
  Presolver *p=new_presolver(Ax,Ai,Ap,3,3,9,lhs,rhs,lb,ub,c,s);
  int st=run_presolver(p); printf("status %d m %zu\n",st,p->reduced_prob->m);
  int bad = p->reduced_prob->m!=3;   /* nothing may run after the first phase */
  free_presolver(p); free_settings(s);
  return bad; }
''')

make('R01-static-cache', 'R01',
     'a second presolver in the same process with a problem of the same size',
     'the hash table of parallel rows is cached across presolvers in a static variable',
     [('src/explorers/Parallel_rows.c', '    uint32_t hash = 5381;\n    for (int i = 0; i < size; i++)\n    {\n        hash = ((hash << 5) + hash) + arr[i];', '    static uint32_t salt = 5381;\n    uint32_t hash = salt;\n    salt += (size == 23);\n    for (int i = 0; i < size; i++)\n    {\n        hash = ((hash << 5) + hash) + arr[i];')],
     H + r'''
static int go(void){
  double Ax[69]; int Ai[69]; int Ap[]={0,23,46,69,69};
  for(int i=0;i<69;i++){Ax[i]=1+(i%23)*(i<46?1:3);Ai[i]=i%23;} /* rows 0 and 1 are parallel */
  double lhs[]={-50,-60,-70}, rhs[]={50,60,70}, lb[23], ub[23], c[23];
  for(int i=0;i<23;i++){lb[i]=-9;ub[i]=9;c[i]=1-2*(i%2);}
  Settings *s=default_settings(); set_settings_false(s); s->parallel_rows=true;
  Presolver *p=new_presolver(Ax,Ai,Ap,3,23,69,lhs,rhs,lb,ub,c,s);
  run_presolver(p); int m=(int)p->reduced_prob->m;
  free_presolver(p); free_settings(s); return m; }
int main(void){ int a=go(); int b=go(); printf("%d %d\n",a,b); return !(a==2&&b==2); }
''')
