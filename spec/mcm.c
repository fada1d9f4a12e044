/* Reference formulas for the mode-coupling matrix. */
#include "config.h"
#include "utils.h"

/* Wigner 3j symbol (l1 l2 l3; . m2 m3) */
static double wig(int l1,int l2,int l3,int m2,int m3,int lmx)
{
  int lmin=0,lmax=0;
  double *buf=my_malloc(sizeof(double)*lmx);
  drc3jj(l2,l3,m2,m3,&lmin,&lmax,buf,lmx);
  return (l1<lmin) ? 0 : buf[l1-lmin];
}

/* Response of the spin-s component of a field purified or not */
static double wpure(int pure,int l1,int l2,int l3,int s,int lmx)
{
  double w=wig(l1,l2,l3,s,-s,lmx);
  if(pure && (l2>1)) {
    w+=2*sqrt((l1+1.)*l1/((l2+2.)*(l2-1.)))*wig(l1,l2,l3,1,-2,lmx);
    if(l1>1)
      w+=sqrt((l1+2.)*(l1+1.)*l1*(l1-1.)/((l2+2.)*(l2+1.)*l2*(l2-1.)))*wig(l1,l2,l3,0,-2,lmx);
  }
  return w;
}

static double ref_00(double *pcl,int lmask,int l2,int l3,int lmx)
{
  double r=0;
  int l1;
  for(l1=abs(l2-l3);l1<=NMT_MIN(l2+l3,lmask);l1++)
    r+=pcl[l1]*wig(l1,l2,l3,0,0,lmx)*wig(l1,l2,l3,0,0,lmx);
  return r;
}

static double ref_0s(double *pcl,int lmask,int p,int s,int l2,int l3,int lmx)
{
  double r=0;
  int l1;
  for(l1=abs(l2-l3);l1<=NMT_MIN(l2+l3,lmask);l1++)
    r+=pcl[l1]*wig(l1,l2,l3,0,0,lmx)*wpure(p,l1,l2,l3,s,lmx);
  return r;
}

static double ref_ss(double *pcl,int lmask,int p1,int p2,int s1,int s2,int odd,int l2,int l3,int lmx)
{
  double r=0;
  int l1;
  for(l1=abs(l2-l3);l1<=NMT_MIN(l2+l3,lmask);l1++) {
    if(((l1+l2+l3) & 1)==odd)
      r+=pcl[l1]*wpure(p1,l1,l2,l3,s1,lmx)*wpure(p2,l1,l2,l3,s2,lmx);
  }
  return r;
}

int P_mcm(int spin1,int spin2,int is_teb,nmt_binning_scheme *bin,int lmax,int l2,int l3,int a,int b)
{
  int n=is_teb ? 7 : (spin1 ? 2 : 1)*(spin2 ? 2 : 1);
  int lo=is_teb ? spin2 : NMT_MAX(spin1,spin2);
  return (bin->ell_max<=lmax) && (l2>=lo) && (l3>=lo) && (l2<=bin->ell_max) && (l3<=bin->ell_max) &&
    (a>=0) && (b>=0) && (a<n) && (b<n);
}

nmt_workspace *S_mcm(int spin1,int spin2,int lmax,int lmax_mask,int pe1,int pb1,int pe2,int pb2,
                     double *pcl,double *b1,double *b2,nmt_binning_scheme *bin,int is_teb,
                     int norm_type,double w2)
{
  return nmt_compute_coupling_matrix(spin1,spin2,lmax,lmax_mask,pe1,pb1,pe2,pb2,pcl,b1,b2,
                                     bin,is_teb,-1,-1,-1,norm_type,w2);
}
double V_mcm(nmt_workspace *w,int l2,int l3,int a,int b)
{
  return w->coupling_matrix_unbinned[w->ncls*l2+a][w->ncls*l3+b];
}

double R_mcm(int spin1,int spin2,int lmax,int lmax_mask,int pe1,int pb1,int pe2,int pb2,
             double *pcl,double *b1,double *b2,nmt_binning_scheme *bin,int is_teb,
             int norm_type,double w2,int l2,int l3,int a,int b)
{
  int l1,ma,mb,na,nb,n1,n2,pa[2],pb[2];
  double sg;
  double *p=my_malloc(sizeof(double)*(lmax_mask+1));
  for(l1=0;l1<=lmax_mask;l1++)
    p[l1]=pcl[l1]*(2*l1+1)/(4*M_PI);
  if(is_teb) {
    if(a==0 && b==0)
      return (2*l3+1)*ref_00(p,lmax_mask,l2,l3,lmax)*((spin2 & 1) ? -1 : 1);
    if((a==0) || (b==0))
      return 0;
    if((a<3) || (b<3)) {
      if(a==b)
        return (2*l3+1)*ref_0s(p,lmax_mask,(a==1) ? pe2 : pb2,spin2,l2,l3,lmax)*((spin2 & 1) ? -1 : 1);
      return 0;
    }
    a-=3;
    b-=3;
    spin1=spin2;
    pe1=pe2;
    pb1=pb2;
    sg=(spin2 & 1) ? -1 : 1;
  }
  else
    sg=((spin1+spin2) & 1) ? -1 : 1;
  pa[0]=pe1; pa[1]=pb1;
  pb[0]=pe2; pb[1]=pb2;
  if((spin1==0) && (spin2==0))
    return sg*(2*l3+1)*ref_00(p,lmax_mask,l2,l3,lmax);
  if(spin1==0)
    return (a==b) ? sg*(2*l3+1)*ref_0s(p,lmax_mask,a ? pb2 : pe2,spin2,l2,l3,lmax) : 0;
  if(spin2==0)
    return (a==b) ? sg*(2*l3+1)*ref_0s(p,lmax_mask,a ? pb1 : pe1,spin1,l2,l3,lmax) : 0;
  /* (m1,m2) -> (n1,n2): same parity of both, even sum; both flipped, odd sum */
  ma=a/2; mb=a%2;
  na=b/2; nb=b%2;
  n1=ma ? pb1 : pe1;
  n2=mb ? pb2 : pe2;
  if((ma==na) && (mb==nb))
    return sg*(2*l3+1)*ref_ss(p,lmax_mask,n1,n2,spin1,spin2,0,l2,l3,lmax);
  if((ma!=na) && (mb!=nb))
    return ((ma==mb) ? 1 : -1)*sg*(2*l3+1)*ref_ss(p,lmax_mask,n1,n2,spin1,spin2,1,l2,l3,lmax);
  return 0;
}

/* Coupling coefficients of the covariance: same sums over the spectra of the mask products */
int P_covinit(int spin0_only,int lmax,int which,int l2,int l3)
{
  int lo=(spin0_only || (which<2)) ? 0 : 2;
  return (l2>=lo) && (l3>=lo) && (l2<=lmax) && (l3<=lmax);
}
nmt_covar_workspace *S_covinit(double *cl1,double *cl2,int lmax,int lmax_mask,int spin0_only)
{
  return nmt_covar_workspace_init(cl1,cl2,lmax,lmax_mask,-1,-1,-1,spin0_only);
}
double V_covinit(nmt_covar_workspace *cw,int which,int l2,int l3)
{
  if(which==0) return cw->xi00_1122[l2][l3];
  if(which==1) return cw->xi00_1221[l2][l3];
  if(which==2) return cw->xi02_1122[l2][l3];
  if(which==3) return cw->xi02_1221[l2][l3];
  if(which==4) return cw->xi22p_1122[l2][l3];
  if(which==5) return cw->xi22p_1221[l2][l3];
  if(which==6) return cw->xi22m_1122[l2][l3];
  if(which==7) return cw->xi22m_1221[l2][l3];
  if(which==8) return cw->lmax;
  return cw->spin0_only;
}
double R_covinit(double *cl1,double *cl2,int lmax,int lmax_mask,int spin0_only,int which,int l2,int l3)
{
  int l1;
  double *cl=(which%2) ? cl2 : cl1;
  double *p=my_malloc(sizeof(double)*(lmax_mask+1));
  if(which==8)
    return lmax;
  if(which==9)
    return spin0_only;
  for(l1=0;l1<=lmax_mask;l1++)
    p[l1]=cl[l1]*(2*l1+1)/(4*M_PI);
  if(spin0_only || (which<2))
    return ref_00(p,lmax_mask,l2,l3,lmax);
  if(which<4)
    return ref_0s(p,lmax_mask,0,2,l2,l3,lmax);
  return ref_ss(p,lmax_mask,0,0,2,2,(which<6) ? 0 : 1,l2,l3,lmax);
}
