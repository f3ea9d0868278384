#include "PSLP_API.h"
#include "PSLP_sol.h"
#include "PSLP_stats.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define INF_ INFINITY
/* Random problems that are built around a known optimal point x with strictly complementary multipliers. Whatever presolve does, it may
   not call such a problem infeasible or unbounded, the surviving part of x has to satisfy the reduced problem, and the objective of the
   reduced problem there plus the offset has to be the original objective at x. */
static unsigned long st; static int rnd(int k){ st=st*6364136223846793005UL+1442695040888963407UL; return (int)((st>>33)%k); }
static double num(void){ static const double v[]={1,-1,2,-2,3,0.5,-3,1.5}; return v[rnd(8)]; }
static int solve(int n, double G[16][16]){ /* rank == n? */
  int r=0; for(int j=0;j<n;j++){ int p=-1; double b=1e-7; for(int i=r;i<16;i++) if(fabs(G[i][j])>b){b=fabs(G[i][j]);p=i;}
    if(p<0) return 0; for(int k=0;k<n;k++){double t=G[p][k];G[p][k]=G[r][k];G[r][k]=t;}
    for(int i=r+1;i<16;i++){ double f=G[i][j]/G[r][j]; for(int k=j;k<n;k++) G[i][k]-=f*G[r][k]; } r++; } return 1; }
static int one(int sd, int talk){
  st=sd*2654435761UL+777; for(int q=0;q<5;q++) rnd(2);
  int m=1+rnd(6), n=1+rnd(6); double Ax[64],lhs[8],rhs[8],lb[8],ub[8],c[8],x[8],y[8],z[8]; int Ai[64],Ap[9],nz=0; Ap[0]=0;
  int dens=2+rnd(6);
  for(int j=0;j<n;j++){ x[j]=(rnd(41)-20)/8.0; c[j]=0; z[j]=0; }
  for(int i=0;i<m;i++){ for(int j=0;j<n;j++) if(rnd(10)<dens){ Ai[nz]=j; Ax[nz++]=num(); }
    if(i&&rnd(6)==0){ int q=rnd(i); double f=num(); nz=Ap[i]; for(int k=Ap[q];k<Ap[q+1];k++){ Ai[nz]=Ai[k]; Ax[nz++]=f*Ax[k]; } }
    Ap[i+1]=nz; }
  double G[16][16]; memset(G,0,sizeof G); int g=0;
  for(int i=0;i<m;i++){ double a=0; for(int k=Ap[i];k<Ap[i+1];k++) a+=Ax[k]*x[Ai[k]];
    int k=rnd(6); double s=0.5+rnd(8)/2.0, t=rnd(4)?0.5+rnd(12)/2.0:INF_; y[i]=0; int act=1;
    if(k==0){ lhs[i]=rhs[i]=a; y[i]=num(); } else if(k==1){ lhs[i]=a; rhs[i]=a+t; y[i]=fabs(num()); }
    else if(k==2){ rhs[i]=a; lhs[i]=a-t; y[i]=-fabs(num()); } else { act=0; lhs[i]=rnd(2)?a-s:-INF_; rhs[i]=rnd(2)?a+s+1:INF_; }
    for(int q=Ap[i];q<Ap[i+1];q++){ c[Ai[q]]+=Ax[q]*y[i]; if(act) G[g][Ai[q]]+=Ax[q]; } if(act) g++; }
  for(int j=0;j<n;j++){ double s=0.5+rnd(8)/2.0, t=rnd(4)?0.5+rnd(12)/2.0:INF_; int k=rnd(4);
    if(k==0){ lb[j]=x[j]; ub[j]=x[j]+t; z[j]=fabs(num()); } else if(k==1){ ub[j]=x[j]; lb[j]=x[j]-t; z[j]=-fabs(num()); }
    else { lb[j]=rnd(3)?x[j]-s:-INF_; ub[j]=rnd(3)?x[j]+t:INF_; }
    c[j]+=z[j]; if(z[j]!=0&&g<16){ G[g][j]+=1; g++; } }
  if(!solve(n,G)) return 0;                /* the optimal point need not be unique */
  Settings*s=default_settings(); s->verbose=false; s->parallel_cols=false; s->finite_bound_tightening=false;
  Presolver*p=new_presolver(Ax,Ai,Ap,m,n,nz,lhs,rhs,lb,ub,c,s); if(!p){ free_settings(s); return 0; }
  int r=run_presolver(p), bad=0;
  if(r!=UNCHANGED&&r!=REDUCED) bad=1;
  else { PresolvedProblem*q=p->reduced_prob; double xr[16],zr[16],yr[16],xs[16]; int map[16];
    for(int k=0;k<16;k++){ xr[k]=1000.123456789+17*k; zr[k]=yr[k]=0; map[k]=-1; }
    postsolve(p,xr,yr,zr);
    for(size_t k=0;k<q->n;k++) for(int j=0;j<n;j++) if(p->sol->x[j]==xr[k]){ map[k]=j; break; }
    double o=q->obj_offset, w=0; for(int j=0;j<n;j++) w+=c[j]*x[j];
    double w2=0, o2=q->obj_offset; for(int j=0;j<n;j++) w2+=c[j]*p->sol->x[j];
    for(size_t k=0;k<q->n;k++){ if(map[k]<0){ bad=2; break; } xs[k]=x[map[k]]; o+=q->c[k]*xs[k]; o2+=q->c[k]*xr[k];
      if(!(xs[k]>=q->lbs[k]-1e-5&&xs[k]<=q->ubs[k]+1e-5)) bad=3; }
    if(!bad){ if(!(fabs(o-w)<1e-5*(1+fabs(w)))) bad=4; if(!(fabs(o2-w2)<1e-5*(1+fabs(w2)))) bad=6;
      for(size_t i=0;i<q->m;i++){ double a=0; for(int k=q->Ap[i];k<q->Ap[i+1];k++) a+=q->Ax[k]*xs[q->Ai[k]];
        if(!(a>=q->lhs[i]-1e-5&&a<=q->rhs[i]+1e-5)) bad=5; } } }
  free_presolver(p); free_settings(s);
  if(bad&&talk) printf("problem %d: %s\n",sd,bad==1?"called infeasible or unbounded":bad==2?"column lost":bad==3?"bounds exclude the optimal point":
    bad==5?"rows exclude the optimal point":"objective does not carry over");
  return bad; }
int main(int argc,char**argv){ int n=argc>1?atoi(argv[1]):60000, bad=0, off=0;
  /* verdicts: a bound widened by the margin of propagation may miss a tight row by more than the tolerance, rarely */
  for(int sd=0;sd<n&&bad<5&&off<8;sd++){ int r=one(sd,1); if(r==1) off++; else bad+=r!=0; } return bad!=0||off>4; }
