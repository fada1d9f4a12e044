/* Reference formulas for the coupling matrix of anisotropically weighted fields:
   the response of field f to weight component X (0 isotropic, 1 E, 2 B) is a 2x2
   matrix A_X acting on (E,B); odd l1+l2+l3 multiply it by J. */
#include "config.h"
#include "utils.h"

static double wig2(int l1,int l2,int l3,int m2,int m3,int lmx)
{
  int lmin=0,lmax=0;
  double *buf=my_malloc(sizeof(double)*lmx);
  drc3jj(l2,l3,m2,m3,&lmin,&lmax,buf,lmx);
  return (l1<lmin) ? 0 : buf[l1-lmin];
}

static double resp(int X,int odd,int i,int j)
{
  if(X==0) {
    if(!odd) return (i==j) ? 1 : 0;
    return (i==j) ? 0 : ((i<j) ? 1 : -1);
  }
  if(X==1) {
    if(!odd) return (i==j) ? (i ? 1 : -1) : 0;
    return (i==j) ? 0 : 1;
  }
  if(!odd) return (i==j) ? 0 : -1;
  return (i==j) ? (i ? 1 : -1) : 0;
}

nmt_workspace *S_aniso(int spin1,int spin2,int an1,int an2,int lmax,int lmax_mask,
                       double *p00,double *p0e,double *pe0,double *p0b,double *pb0,
                       double *pee,double *peb,double *pbe,double *pbb,
                       double *b1,double *b2,nmt_binning_scheme *bin,int norm_type,double w2)
{
  return nmt_compute_coupling_matrix_anisotropic(spin1,spin2,an1,an2,lmax,lmax_mask,
                                                 p00,p0e,pe0,p0b,pb0,pee,peb,pbe,pbb,
                                                 b1,b2,bin,norm_type,w2);
}
double V_aniso(nmt_workspace *w,int l2,int l3,int a,int b)
{
  return w->coupling_matrix_unbinned[w->ncls*l2+a][w->ncls*l3+b];
}
int P_aniso(int spin1,int spin2,nmt_binning_scheme *bin,int lmax,int l2,int l3)
{
  return (bin->ell_max==lmax) && (l2>=NMT_MAX(spin1,spin2)) && (l3>=NMT_MAX(spin1,spin2)) &&
    (l2<=bin->ell_max) && (l3<=bin->ell_max);
}
double R_aniso(int spin1,int spin2,int an1,int an2,int lmax,int lmax_mask,
               double *p00,double *p0e,double *pe0,double *p0b,double *pb0,
               double *pee,double *peb,double *pbe,double *pbb,
               double *b1,double *b2,nmt_binning_scheme *bin,int norm_type,double w2,
               int l2,int l3,int a,int b)
{
  double r=0;
  int l1,X,Y,n2=spin2 ? 2 : 1;
  for(l1=abs(l2-l3);l1<=NMT_MIN(l2+l3,lmax_mask);l1++) {
    int odd=(l1+l2+l3) & 1;
    double v=0;
    for(X=0;X<3;X++) {
      for(Y=0;Y<3;Y++) {
        double *p,wx,wy,ax,ay,s;
        if((X && !an1) || (Y && !an2))
          continue;
        if(X==0) p=(Y==0) ? p00 : ((Y==1) ? p0e : p0b);
        else if(X==1) p=(Y==0) ? pe0 : ((Y==1) ? pee : peb);
        else p=(Y==0) ? pb0 : ((Y==1) ? pbe : pbb);
        wx=wig2(l1,l2,l3,spin1,X ? spin1 : -spin1,lmax);
        wy=wig2(l1,l2,l3,spin2,Y ? spin2 : -spin2,lmax);
        s=((spin1+spin2) & 1) ? -1 : 1;
        if(X && (spin1 & 1)) s=-s;
        if(Y && (spin2 & 1)) s=-s;
        /* a spin-0 field has one component and no parity partner */
        if(spin1==0) {
          ax=1;
          ay=resp(Y,0,a,b);
        }
        else if(spin2==0) {
          ax=resp(X,0,a,b);
          ay=1;
        }
        else {
          ax=resp(X,odd,a/2,b/2);
          ay=resp(Y,odd,a%2,b%2);
        }
        v+=s*wx*wy*ax*ay*p[l1];
      }
    }
    r+=v*(2*l1+1)/(4*M_PI);
  }
  return r*(2*l3+1);
}
