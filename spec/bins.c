/* Bandpowers: curved sky. */
#include "config.h"
#include "utils.h"

static double band_member(nmt_binning_scheme *b,int q,int i,int j)
{
  if(q==0) return b->n_bands;
  if(q==1) return b->ell_max;
  if(q==2) return b->nell_list[i];
  if(q==3) return b->ell_list[i][j];
  if(q==4) return b->w_list[i][j];
  return b->f_ell[i][j];
}

/* given lists of multipoles and bandpowers: the lists are fixed, weights are free */
static int lists(int sh,int *ell,int *bp)
{
  int n=0;
  if(sh==0) { /* contiguous; the last multipole is above lmax */
    ell[0]=2; bp[0]=0; ell[1]=3; bp[1]=0; ell[2]=4; bp[2]=1; ell[3]=5; bp[3]=1; ell[4]=6; bp[4]=2;
    n=5;
  }
  if(sh==1) { /* interleaved, descending, unused multipoles */
    ell[0]=5; bp[0]=1; ell[1]=4; bp[1]=0; ell[2]=3; bp[2]=-1; ell[3]=2; bp[3]=1; ell[4]=0; bp[4]=0;
    n=5;
  }
  if(sh==2) { /* one band, the multipole lmax itself, one above */
    ell[0]=6; bp[0]=0; ell[1]=5; bp[1]=0; ell[2]=7; bp[2]=0;
    n=3;
  }
  if(sh==3) { /* every multipole its own band */
    ell[0]=0; bp[0]=2; ell[1]=1; bp[1]=0; ell[2]=2; bp[2]=1;
    n=3;
  }
  return n;
}

int P_bins_create(double *w,double *f,int sh,int none)
{
  int i,r=none || (f!=NULL);
  for(i=0;i<5;i++)
    r=r && (w[i]>0);
  return r;
}
nmt_binning_scheme *S_bins_create(double *w,double *f,int sh,int none)
{
  int ell[5],bp[5];
  int n=lists(sh,ell,bp);
  return nmt_bins_create(n,bp,ell,w,none ? NULL : f,5);
}
double V_bins_create(nmt_binning_scheme *b,double *w,double *f,int sh,int none,int q,int i,int j)
{
  return band_member(b,q,i,j);
}
double W_bins_create(nmt_binning_scheme *b,double *w,double *f,int sh,int none,int q,int i,int j)
{
  int ell[5],bp[5];
  int k,nb=0,m=0;
  double tot=0,r=0;
  int n=lists(sh,ell,bp);
  for(k=0;k<n;k++) {
    if(ell[k]<=5) {
      if(bp[k]+1>nb) nb=bp[k]+1;
      if(bp[k]==i) {
        if(m==j) {
          if(q==3) r=ell[k];
          if(q==4) r=w[k];
          if(q==5) r=none ? 1 : ((f[k]>0) ? f[k] : 1);
        }
        m++;
        tot+=w[k];
      }
    }
  }
  if(q==0) return nb;
  if(q==1) return 5;
  if(q==2) return m;
  if(q==4) return r/tot;
  return r;
}

/* bands of constant width */
int P_bins_const(int nlb,int lmax,int q,int i,int j)
{
  return (nlb>=1) && (lmax>=2) && (i>=0) && (j>=0) && (j<nlb) && (i<(lmax-1)/nlb);
}
double L_bins_const(int nlb,int lmax,int is_l2,int q,int i,int j)
{
  return band_member(nmt_bins_constant(nlb,lmax,is_l2),q,i,j);
}
double R_bins_const(int nlb,int lmax,int is_l2,int q,int i,int j)
{
  double l=2+i*nlb+j;
  if(q==0) return (lmax-1)/nlb;
  if(q==1) return lmax;
  if(q==2) return nlb;
  if(q==3) return l;
  if(q==4) return 1./nlb;
  return is_l2 ? l*(l+1)/(2*M_PI) : 1;
}

/* averages over a band */
int P_bin_cls(nmt_binning_scheme *b,int n,int a,int i)
{
  return (a>=0) && (a<n) && (i>=0) && (i<b->n_bands);
}
double L_bin_cls(nmt_binning_scheme *b,double **in,double **out,int n,int a,int i)
{
  nmt_bin_cls(b,in,out,n);
  return out[a][i];
}
double R_bin_cls(nmt_binning_scheme *b,double **in,double **out,int n,int a,int i)
{
  double r=0;
  int x;
  for(x=0;x<b->nell_list[i];x++)
    r+=b->w_list[i][x]*b->f_ell[i][x]*in[a][b->ell_list[i][x]];
  return r;
}
int P_ell_eff(nmt_binning_scheme *b,int i) { return (i>=0) && (i<b->n_bands); }
double L_ell_eff(nmt_binning_scheme *b,double *out,int i)
{
  nmt_ell_eff(b,out);
  return out[i];
}
double R_ell_eff(nmt_binning_scheme *b,double *out,int i)
{
  double r=0;
  int x;
  for(x=0;x<b->nell_list[i];x++)
    r+=b->w_list[i][x]*b->ell_list[i][x];
  return r;
}

/* the spectrum that is constant in each band, for given lists of multipoles */
static void given(nmt_binning_scheme *b,int sh)
{
  b->n_bands=2;
  b->nell_list[0]=2; b->nell_list[1]=2;
  if(sh==0) {
    b->ell_list[0][0]=2; b->ell_list[0][1]=3;
    b->ell_list[1][0]=4; b->ell_list[1][1]=5;
  }
  else {
    b->ell_list[0][0]=5; b->ell_list[0][1]=2;
    b->ell_list[1][0]=3; b->ell_list[1][1]=0;
  }
}
nmt_binning_scheme *S_unbin_cls(nmt_binning_scheme *b,double **in,double **out,int sh)
{
  given(b,sh);
  nmt_unbin_cls(b,in,out,2);
  return b;
}
double V_unbin_cls(nmt_binning_scheme *b,nmt_binning_scheme *b0,double **in,double **out,int sh,int a,int i,int x)
{
  return out[a][b->ell_list[i][x]];
}
double W_unbin_cls(nmt_binning_scheme *b,nmt_binning_scheme *b0,double **in,double **out,int sh,int a,int i,int x)
{
  return in[a][i]/b->f_ell[i][x];
}

/* ---- flat sky ---- */
int P_bins_flat(int n,int i) { return (i>=0) && (i<n); }
double L_bins_flat(int n,double *lo,double *hi,int q,int i)
{
  nmt_binning_scheme_flat *b=nmt_bins_flat_create(n,lo,hi);
  return (q==0) ? b->n_bands : ((q==1) ? b->ell_0_list[i] : b->ell_f_list[i]);
}
double R_bins_flat(int n,double *lo,double *hi,int q,int i)
{
  return (q==0) ? n : ((q==1) ? lo[i] : hi[i]);
}
int P_ell_eff_flat(nmt_binning_scheme_flat *b,int i) { return (i>=0) && (i<b->n_bands); }
double L_ell_eff_flat(nmt_binning_scheme_flat *b,double *out,int i)
{
  nmt_ell_eff_flat(b,out);
  return out[i];
}
double R_ell_eff_flat(nmt_binning_scheme_flat *b,double *out,int i)
{
  return (b->ell_0_list[i]+b->ell_f_list[i])/2;
}

/* which band a wavenumber is in, whatever band the search starts from */
static int sorted(nmt_binning_scheme_flat *b,int n)
{
  int i,r=1;
  for(i=0;i<n;i++) {
    r=r && (b->ell_0_list[i]<b->ell_f_list[i]);
    if(i>0) r=r && (b->ell_f_list[i-1]<=b->ell_0_list[i]);
  }
  return r;
}
static double band(nmt_binning_scheme_flat *b,int n,double l)
{
  int i;
  double r=-1;
  for(i=0;i<n;i++) {
    if((l>=b->ell_0_list[i]) && (l<b->ell_f_list[i]))
      r=i;
  }
  return r;
}
int P_search(nmt_binning_scheme_flat *b,int n) { return sorted(b,n); }
double L_search(nmt_binning_scheme_flat *b,int n,double l,int start)
{
  b->n_bands=n;
  return nmt_bins_flat_search_fast(b,l,start);
}
double R_search(nmt_binning_scheme_flat *b,int n,double l,int start) { return band(b,n,l); }

int P_bin_flat(nmt_binning_scheme_flat *b,int nl,int n,int a,int i)
{
  return (a>=0) && (a<n) && (i>=0) && (i<b->n_bands) && (nl>=1);
}
double L_bin_flat(nmt_binning_scheme_flat *b,int nl,double *larr,double **in,double **out,int n,int a,int i)
{
  nmt_bin_cls_flat(b,nl,larr,in,out,n);
  return out[a][i];
}
double R_bin_flat(nmt_binning_scheme_flat *b,int nl,double *larr,double **in,double **out,int n,int a,int i)
{
  nmt_k_function *f=nmt_k_function_alloc(nl,larr,in[a],in[a][0],in[a][nl-1],0);
  return nmt_k_function_eval(f,0.5*(b->ell_0_list[i]+b->ell_f_list[i]),NULL);
}
int P_unbin_flat(nmt_binning_scheme_flat *b,int nb,int nl,int n,int a,int k)
{
  return sorted(b,nb) && (a>=0) && (a<n) && (k>=0) && (k<nl);
}
double L_unbin_flat(nmt_binning_scheme_flat *b,int nb,int nl,double *larr,double **in,double **out,int n,int a,int k)
{
  b->n_bands=nb;
  nmt_unbin_cls_flat(b,in,nl,larr,out,n);
  return out[a][k];
}
/* outside every band the value is unspecified */
double R_unbin_flat(nmt_binning_scheme_flat *b,int nb,int nl,double *larr,double **in,double **out,int n,int a,int k)
{
  int ib=nmt_bins_flat_search_fast(b,larr[k],0);
  return (ib>=0) ? in[a][ib] : -999;
}
