import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mk import make
from seeds1 import H, PR

CNT = r'''
extern void *__real_malloc(size_t); extern void *__real_calloc(size_t,size_t);
extern void *__real_realloc(void*,size_t); extern void __real_free(void*);
static long live, calls, fail_at = -1; static int once;
static int die(void){ return fail_at >= 0 && (once ? calls++ == fail_at : ++calls > fail_at); }
void *__wrap_malloc(size_t n){ if(die()) return 0; void *p=__real_malloc(n?n:1); live++; return p; }
void *__wrap_calloc(size_t a,size_t b){ if(die()) return 0; live++; return __real_calloc(a?a:1,b?b:1); }
void *__wrap_realloc(void*p,size_t n){ if(!p) live++; return __real_realloc(p,n?n:1); }
void __wrap_free(void*p){ if(p) live--; __real_free(p); }
'''
WR = '-Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free'

make('M01-stale-list', 'M01',
     'propagation of more rows than the list of updated rows has room for, so that the list is moved while it is traversed',
     'propagate_primal keeps reading the list of updated rows through a pointer taken before the list was reallocated',
     [('src/explorers/Primal_propagation.c', '''    ii = 0;
    while (ii < updated_activities->len)
    {
        current_len''', '''    ii = 0;
    const int *rows_to_propagate = updated_activities->data;
    while (ii < updated_activities->len)
    {
        current_len'''), ('src/explorers/Primal_propagation.c', '''            i = updated_activities->data[ii];

            // can''', '''            i = rows_to_propagate[ii];

            // can''')],
     H + r'''
const char *__asan_default_options(void){ return "detect_leaks=0"; }
int main(void){
  enum { M = 6000 };
  double *Ax=malloc(3*M*8), *lhs=malloc(M*8), *rhs=malloc(M*8), *lb=malloc((M+2)*8), *ub=malloc((M+2)*8), *c=malloc((M+2)*8);
  int *Ai=malloc(3*M*4), *Ap=malloc((M+1)*4);
  for(int i=0;i<M;i++){ Ap[i]=3*i; Ai[3*i]=i; Ai[3*i+1]=i+1; Ai[3*i+2]=i+2; Ax[3*i]=-0.5; Ax[3*i+1]=-0.4; Ax[3*i+2]=1;
    lhs[i]=-INF_; rhs[i]=1; }
  Ap[M]=3*M;
  for(int j=0;j<M+2;j++){ lb[j]=0; ub[j]=j<2?1:INF_; c[j]=-1; }
  Settings *s=default_settings(); set_settings_false(s); s->primal_propagation=true;
  Presolver *p=new_presolver(Ax,Ai,Ap,M,M+2,3*M,lhs,rhs,lb,ub,c,s);
  int st=run_presolver(p); printf("status %d\n",st);
  free_presolver(p); free_settings(s); return 0; }
''', flags='-fsanitize=address')

make('M01-empty-leak', 'M01',
     'a problem that is reduced until no non-zero is left',
     'the arrays of the reduced problem are not released when it has no non-zeros',
     [(PR, '''        PS_FREE(presolver->reduced_prob->Ap);
        PS_FREE(presolver->reduced_prob->lbs);
        PS_FREE(presolver->reduced_prob->ubs);
''', '''        if (presolver->reduced_prob->nnz > 0)
        {
            PS_FREE(presolver->reduced_prob->Ap);
            PS_FREE(presolver->reduced_prob->lbs);
            PS_FREE(presolver->reduced_prob->ubs);
        }
''')],
     H + CNT + r'''
int main(void){
  double Ax[]={1,1}; int Ai[]={0,1}; int Ap[]={0,1,2};
  double lhs[]={2,3}, rhs[]={2,3}, lb[]={0,0}, ub[]={10,10}, c[]={1,-1};
  Settings *s=default_settings(); s->verbose=false;
  Presolver *p=new_presolver(Ax,Ai,Ap,2,2,2,lhs,rhs,lb,ub,c,s);
  int st=run_presolver(p); printf("status %d nnz %zu\n",st,p->reduced_prob->nnz);
  free_presolver(p); free_settings(s); printf("live blocks %ld\n", live);
  return live != 0; }
''', flags=WR)

OOM = H + CNT + r'''
#include <sys/wait.h>
#include <unistd.h>
int main(void){
  double Ax[]={1,2, 1,1, 2,3}; int Ai[]={0,1, 1,2, 0,2}; int Ap[]={0,2,4,6};
  double lhs[]={1,-INF_,0}, rhs[]={4,6,9}, lb[]={0,0,0}, ub[]={10,10,10}, c[]={1,-1,2};
  int bad=0;
  for(int q=0;q<180;q++){
    int k=q/2; once=q%2;
    fflush(stdout);
    pid_t f=fork();
    if(!f){
      Settings *s=default_settings(); s->verbose=false;
      long before=live; fail_at=k; calls=0;
      Presolver *p=new_presolver(Ax,Ai,Ap,3,3,6,lhs,rhs,lb,ub,c,s);
      long used=calls; fail_at=-1;
      if(used<=k){ _exit(p?0:3); }           /* nothing failed */
      _exit(p ? 4 : live!=before ? 5 : 0);
    }
    int w=0; waitpid(f,&w,0);
    if(!WIFEXITED(w) || WEXITSTATUS(w)){ printf("allocation %d failing: %s %d\n",k,WIFSIGNALED(w)?"signal":"exit",WIFSIGNALED(w)?WTERMSIG(w):WEXITSTATUS(w)); bad=1; }
  }
  return bad; }
'''
make('M02-list-unchecked', 'M02',
     'the allocation of the list of doubleton rows fails while everything else succeeds',
     'new_presolver goes on with a missing list and crashes',
     [('src/core/State.c', 'if (!data->ston_rows || !data->ston_cols || !data->dton_rows ||',
       'if (!data->ston_rows || !data->ston_cols ||')], OOM, flags=WR)
make('M02-matrix-leak', 'M02',
     'the allocation of the values or row ranges of the matrix copy fails',
     'the parts of the matrix that were allocated are leaked',
     [('src/core/Matrix.c', '''    A->n_alloc = nnz;
    A->i = (int *) ps_malloc(A->n_alloc, sizeof(int));
    A->p = (RowRange *) ps_malloc(n_rows + 1, sizeof(RowRange));
    A->x = (double *) ps_malloc(A->n_alloc, sizeof(double));

    if (!A->i || !A->p || !A->x)
    {
        free_matrix(A);
        return NULL;''', '''    A->n_alloc = nnz;
    A->i = (int *) ps_malloc(A->n_alloc, sizeof(int));
    A->p = (RowRange *) ps_malloc(n_rows + 1, sizeof(RowRange));
    A->x = (double *) ps_malloc(A->n_alloc, sizeof(double));

    if (!A->i || !A->p || !A->x)
    {
        PS_FREE(A);
        return NULL;''')], OOM, flags=WR)
ASAN = r'''const char *__asan_default_options(void){ return "detect_leaks=0"; }
'''
make('A01-overread', 'A01',
     'caller arrays that end exactly at the last non-zero (any problem; visible with a checked allocator)',
     'the copy of the matrix reads past the end of the caller\'s Ax and Ai',
     [('src/core/Matrix.c', '''    A->n_alloc = nnz;
    A->i = (int''', '''    A->n_alloc = nnz + n_rows;
    A->i = (int'''), ('src/core/Matrix.c', '''    memcpy(A->x, Ax, nnz * sizeof(double));
    memcpy(A->i, Ai, nnz * sizeof(int));

    for (int i = 0; i < n_rows; ++i)
    {
        A->p[i].start = Ap[i];
        A->p[i].end = Ap[i + 1];
    }
''', '''    memcpy(A->x, Ax, A->n_alloc * sizeof(double));
    memcpy(A->i, Ai, A->n_alloc * sizeof(int));

    for (int i = 0; i < n_rows; ++i)
    {
        A->p[i].start = Ap[i];
        A->p[i].end = Ap[i + 1];
    }
''')], H + ASAN + r'''
static void *dup_(const void *p, size_t n){ void *q=malloc(n); memcpy(q,p,n); return q; }
int main(void){
  double Ax[]={1,2, 1,1, 2,3}; int Ai[]={0,1, 1,2, 0,2}; int Ap[]={0,2,4,6};
  double lhs[]={1,-INF_,0}, rhs[]={4,6,9}, lb[]={0,0,0}, ub[]={10,10,10}, c[]={1,-1,2};
  Settings *s=default_settings(); s->verbose=false;
  double *x=dup_(Ax,sizeof Ax); int *ai=dup_(Ai,sizeof Ai), *ap=dup_(Ap,sizeof Ap);
  Presolver *p=new_presolver(x,ai,ap,3,3,6,lhs,rhs,lb,ub,c,s);
  printf("status %d\n", run_presolver(p));
  free_presolver(p); free_settings(s); return 0; }
''', flags='-fsanitize=address')
make('A01-bounds-normalised', 'A01',
     'a caller that keeps using its bound arrays after a problem with an infinite lower bound',
     'infinite lower bounds are replaced in the caller\'s own array',
     [(PR, '''            UPDATE_TAG(data->col_tags[i], C_TAG_LB_INF);
''', '''            ((double *) data->lbs)[i] = -1.0e100;
            UPDATE_TAG(data->col_tags[i], C_TAG_LB_INF);
''')], H + r'''
int main(void){
  double Ax[]={1,2, 1,1, 2,3}; int Ai[]={0,1, 1,2, 0,2}; int Ap[]={0,2,4,6};
  double lhs[]={1,-INF_,0}, rhs[]={4,6,9}, lb[]={0,-INF_,0}, ub[]={10,10,10}, c[]={1,-1,2};
  Settings *s=default_settings(); s->verbose=false;
  Presolver *p=new_presolver(Ax,Ai,Ap,3,3,6,lhs,rhs,lb,ub,c,s);
  printf("status %d, lower bound %g\n", run_presolver(p), lb[1]);
  free_presolver(p); free_settings(s); return !(lb[1] == -INF_); }
''')
