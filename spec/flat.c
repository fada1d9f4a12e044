/* Reference formulas for the flat-sky mode-coupling matrix. */
#include "config.h"
#include "utils.h"

static double knum(int i,int n,double l)
{
  return ((2*i<=n) ? i : i-n)*(2*M_PI/l);
}

static int incut(double k,double *cut)
{
  return (k<=cut[1]) && (k>=cut[0]);
}

/* bandpower or ring of a mode (-1: none) */
static int modeband(nmt_workspace_flat *w,int rings,double k)
{
  int r;
  if(!rings)
    return nmt_bins_flat_search_fast(w->bin,k,0);
  r=(int)(k*w->fs->i_dell);
  return (r<w->fs->n_ell) ? r : -1;
}

/* cosine and sine of s*(phi1-phi2) */
static void rot(int s,double c1,double s1,double c2,double s2,double *out)
{
  int i;
  double ca=1,sa=0,cb=1,sb=0,t;
  for(i=0;i<s;i++) {
    t=ca*c1-sa*s1; sa=sa*c1+ca*s1; ca=t;
    t=cb*c2-sb*s2; sb=sb*c2+cb*s2; cb=t;
  }
  out[0]=ca*cb+sa*sb;
  out[1]=sa*cb-ca*sb;
}

/* response of component m of a field of spin s to its component n */
static double response(int s,int pure,int m,int n,double *r,double kr)
{
  if(s==0)
    return 1;
  if(pure)
    return (m==n) ? kr : 0;
  if(m==n)
    return r[0];
  return m ? r[1] : -r[1];
}

/* Fourier mode (ix,iy) of the product of two masks, from half-plane transforms */
static double maskmode(nmt_flatsky_info *fs,fcomplex *m1,fcomplex *m2,int ix,int iy)
{
  int jx=(2*ix<=fs->nx) ? ix : fs->nx-ix;
  int jy=(2*ix<=fs->nx) ? iy : ((iy==0) ? 0 : fs->ny-iy);
  fcomplex a=m1[jx+(fs->nx/2+1)*jy],b=m2[jx+(fs->nx/2+1)*jy];
  return creal(a)*creal(b)+cimag(a)*cimag(b);
}

int P_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,nmt_binning_scheme_flat *bin,int rings,int i,int j)
{
  return (fl1->fs->nx>=1) && (fl1->fs->ny>=1) && (fl1->fs->lx>0) && (fl1->fs->ly>0) && (bin->n_bands>=1) && (i>=0) && (j>=0) &&
    (i<bin->n_bands) && ((rings>0) || (j<bin->n_bands));
}

nmt_workspace_flat *S_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,nmt_binning_scheme_flat *bin,
                           double lxa,double lxb,double lya,double lyb,int is_teb,
                           int same,int s1,int s2,int pe1,int pb1,int pe2,int pb2)
{
  fl1->fs->npix=((long)(fl1->fs->nx))*fl1->fs->ny;
  fl2->fs->nx=fl1->fs->nx; fl2->fs->ny=fl1->fs->ny;
  fl2->fs->lx=fl1->fs->lx; fl2->fs->ly=fl1->fs->ly;
  fl1->spin=s1; fl1->nmaps=s1 ? 2 : 1;
  fl1->pure_e=pe1; fl1->pure_b=pb1;
  fl2->spin=s2; fl2->nmaps=s2 ? 2 : 1;
  fl2->pure_e=pe2; fl2->pure_b=pb2;
  return nmt_compute_coupling_matrix_flat(fl1,same ? fl1 : fl2,bin,lxa,lxb,lya,lyb,is_teb);
}

double V_flat(nmt_workspace_flat *w,int rings,int i,int j,int a,int b)
{
  if(rings==-2)
    return gsl_matrix_get(w->coupling_matrix_binned_gsl,w->ncls*i+a,w->ncls*j+b);
  if(rings==-1)
    return w->n_cells[i];
  if(rings)
    return w->coupling_matrix_unbinned[w->ncls*i+a][w->ncls*j+b];
  return w->coupling_matrix_binned[w->ncls*i+a][w->ncls*j+b];
}

double W_flat(nmt_workspace_flat *w,nmt_field_flat *fl1,nmt_field_flat *fl2,int is_teb,int same,
              int s1,int s2,int pe1,int pb1,int pe2,int pb2,
              int rings,int i,int j,int a,int b)
{
  int ix,iy,jx,jy,ma,mb,na,nb,n=0,tt=0;
  double sum=0;
  nmt_flatsky_info *fs=fl1->fs;
  fcomplex *m1=dftw_malloc(fs->ny*(fs->nx/2+1)*sizeof(fcomplex));
  fcomplex *m2=dftw_malloc(fs->ny*(fs->nx/2+1)*sizeof(fcomplex));
  nmt_field_flat *fb=same ? fl1 : fl2;
  fs_map2alm(fs,1,0,&(fl1->mask),&m1);
  fs_map2alm(fs,1,0,&(fb->mask),&m2);
  if(rings==-2)
    rings=0;
  if(is_teb && (rings>=0)) {
    if((a==0) || (b==0)) {
      if(a!=b)
        return 0;
      tt=1;
      ma=mb=na=nb=0;
    }
    else if((a<3) || (b<3)) {
      if((a>=3) || (b>=3))
        return 0;
      ma=na=0; mb=a-1; nb=b-1;
    }
    else {
      ma=(a-3)/2; mb=(a-3)%2;
      na=(b-3)/2; nb=(b-3)%2;
      s1=s2; pe1=pe2; pb1=pb2;
    }
    if(tt)
      s2=0;
  }
  else {
    int n2=s2 ? 2 : 1;
    ma=a/n2; mb=a%n2;
    na=b/n2; nb=b%n2;
  }
  for(iy=0;iy<fs->ny;iy++) {
    for(ix=0;ix<fs->nx;ix++) {
      double kx=knum(ix,fs->nx,fs->lx),ky=knum(iy,fs->ny,fs->ly);
      double k1=sqrt(kx*kx+ky*ky);
      if((modeband(w,0,k1)==i) && !incut(kx,w->ellcut_x) && !incut(ky,w->ellcut_y)) {
        n++;
        for(jy=0;jy<fs->ny;jy++) {
          for(jx=0;jx<fs->nx;jx++) {
            double qx=knum(jx,fs->nx,fs->lx),qy=knum(jy,fs->ny,fs->ly);
            double k2=sqrt(qx*qx+qy*qy);
            if(modeband(w,rings,k2)==j) {
              double r1[2],r2[2],kr=0,x;
              double c1=(k1>0) ? kx/k1 : 1,d1=(k1>0) ? ky/k1 : 0;
              double c2=(k2>0) ? qx/k2 : 1,d2=(k2>0) ? qy/k2 : 0;
              rot(s1,c1,d1,c2,d2,r1);
              rot(s2,c1,d1,c2,d2,r2);
              if(ix+iy>0)
                kr=k2/k1;
              else if(jx+jy==0)
                kr=1;
              x=maskmode(fs,m1,m2,(ix-jx<0) ? ix-jx+fs->nx : ix-jx,(iy-jy<0) ? iy-jy+fs->ny : iy-jy);
              x*=nmt_k_function_eval(fl1->beam,k2,NULL)*nmt_k_function_eval(fb->beam,k2,NULL);
              x*=response(s1,ma ? pb1 : pe1,ma,na,r1,kr*kr);
              x*=response(s2,mb ? pb2 : pe2,mb,nb,r2,kr*kr);
              sum+=x;
            }
          }
        }
      }
    }
  }
  if(rings<0)
    return n;
  if(n==0)
    return 0;
  return sum*4*M_PI*M_PI/(fs->lx*fs->lx*fs->ly*fs->ly)/n;
}

/* interpolated input spectrum, as every flat-sky routine interpolates it */
static double incl(int nl,double *larr,double *cl,double k)
{
  return nmt_k_function_eval(nmt_k_function_alloc(nl,larr,cl,cl[0],0.,0),k,NULL);
}

static double kmode(nmt_flatsky_info *fs,int ix,int iy)
{
  double kx=knum(ix,fs->nx,fs->lx),ky=knum(iy,fs->ny,fs->ly);
  return sqrt(kx*kx+ky*ky);
}

static int keep(nmt_workspace_flat *w,int ix,int iy)
{
  return !incut(knum(ix,w->fs->nx,w->fs->lx),w->ellcut_x) &&
    !incut(knum(iy,w->fs->ny,w->fs->ly),w->ellcut_y);
}

/* couple_cell of a flat-sky workspace */
int P_couple_flat(nmt_workspace_flat *w,int nl,int a,int i)
{
  return (a>=0) && (a<w->ncls) && (i>=0) && (i<w->bin->n_bands) && (w->fs->nx>0) && (w->fs->ny>0) &&
    (w->fs->n_ell>0) && (nl>1) && (w->fs->lx>0) && (w->fs->ly>0) && (w->fs->i_dell>0);
}
double L_couple_flat(nmt_workspace_flat *w,int nl,double *larr,double **cl,double **out,int a,int i)
{
  nmt_couple_cl_l_flat_fast(w,nl,larr,cl,out);
  return out[a][i];
}
double R_couple_flat(nmt_workspace_flat *w,int nl,double *larr,double **cl,double **out,int a,int i)
{
  int b,r,ix,iy;
  double sum=0;
  for(b=0;b<w->ncls;b++) {
    for(r=0;r<w->fs->n_ell;r++) {
      double c=0;
      int n=0;
      for(iy=0;iy<w->fs->ny;iy++) {
        for(ix=0;ix<w->fs->nx;ix++) {
          double k=kmode(w->fs,ix,iy);
          if((int)(k*w->fs->i_dell)==r) {
            n++;
            c+=incl(nl,larr,cl[b],k);
          }
        }
      }
      if(n>0)
        c/=n;
      sum+=w->coupling_matrix_unbinned[w->ncls*i+a][w->ncls*r+b]*c;
    }
  }
  return sum;
}

int P_couple_flat_quick(nmt_workspace_flat *w,int nl,int a,int i)
{
  return P_couple_flat(w,nl,a,i);
}
double L_couple_flat_quick(nmt_workspace_flat *w,int nl,double *larr,double **cl,double **out,int a,int i)
{
  nmt_couple_cl_l_flat_quick(w,nl,larr,cl,out);
  return out[a][i];
}
double R_couple_flat_quick(nmt_workspace_flat *w,int nl,double *larr,double **cl,double **out,int a,int i)
{
  int b,j,ix,iy;
  double sum=0;
  for(b=0;b<w->ncls;b++) {
    for(j=0;j<w->bin->n_bands;j++) {
      double c=0;
      for(iy=0;iy<w->fs->ny;iy++) {
        for(ix=0;ix<w->fs->nx;ix++) {
          double k=kmode(w->fs,ix,iy);
          if((nmt_bins_flat_search_fast(w->bin,k,0)==j) && keep(w,ix,iy))
            c+=incl(nl,larr,cl[b],k);
        }
      }
      if(w->n_cells[j]>0)
        c/=w->n_cells[j];
      else
        c=0;
      sum+=w->coupling_matrix_binned[w->ncls*i+a][w->ncls*j+b]*c;
    }
  }
  return sum;
}

/* decouple_cell of a flat-sky workspace */
int P_decouple_flat(nmt_workspace_flat *w,int a,int i)
{
  return (a>=0) && (a<w->ncls) && (i>=0) && (i<w->bin->n_bands);
}
double L_decouple_flat(nmt_workspace_flat *w,double **cl,double **noise,double **bias,double **out,int a,int i)
{
  nmt_decouple_cl_l_flat(w,cl,noise,bias,out);
  return out[a][i];
}
double R_decouple_flat(nmt_workspace_flat *w,double **cl,double **noise,double **bias,double **out,int a,int i)
{
  int b,j,n=w->ncls*w->bin->n_bands;
  double r=0;
  gsl_matrix *m=gsl_matrix_alloc(n,n);
  gsl_linalg_LU_invert(w->coupling_matrix_binned_gsl,w->coupling_matrix_perm,m);
  for(j=0;j<w->bin->n_bands;j++) {
    for(b=0;b<w->ncls;b++)
      r+=gsl_matrix_get(m,w->ncls*i+a,w->ncls*j+b)*(cl[b][j]-noise[b][j]-bias[b][j]);
  }
  return r;
}

/* spectra of two flat-sky fields: mean over the modes of each bandpower */
int P_cell_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,nmt_binning_scheme_flat *bin,int i)
{
  return (i>=0) && (i<bin->n_bands) && (fl1->fs->nx>0) && (fl1->fs->ny>0) && (fl1->fs->lx>0) && (fl1->fs->ly>0);
}
double L_cell_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,nmt_binning_scheme_flat *bin,double **out,
                   double lxa,double lxb,double lya,double lyb,int s1,int s2,int m1,int m2,int i)
{
  fl1->mask_only=fl2->mask_only=0;
  fl1->spin=s1; fl1->nmaps=s1 ? 2 : 1;
  fl2->spin=s2; fl2->nmaps=s2 ? 2 : 1;
  fl2->fs->nx=fl1->fs->nx; fl2->fs->ny=fl1->fs->ny;
  fl2->fs->lx=fl1->fs->lx; fl2->fs->ly=fl1->fs->ly;
  nmt_compute_coupled_cell_flat(fl1,fl2,bin,out,lxa,lxb,lya,lyb);
  return out[m1*fl2->nmaps+m2][i];
}
double R_cell_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,nmt_binning_scheme_flat *bin,double **out,
                   double lxa,double lxb,double lya,double lyb,int s1,int s2,int m1,int m2,int i)
{
  int ix,iy,n=0;
  double sum=0;
  nmt_flatsky_info *fs=fl1->fs;
  for(iy=0;iy<fs->ny;iy++) {
    for(ix=0;ix<fs->nx;ix++) {
      double kx=knum(ix,fs->nx,fs->lx),ky=knum(iy,fs->ny,fs->ly);
      int cx=(kx>=lxa) && (kx<=lxb),cy=(ky>=lya) && (ky<=lyb);
      if((nmt_bins_flat_search_fast(bin,sqrt(kx*kx+ky*ky),0)==i) && !cx && !cy) {
        n++;
        sum+=maskmode(fs,fl1->alms[m1],fl2->alms[m2],ix,iy);
      }
    }
  }
  if(n<=0)
    return 0;
  return sum*4*M_PI*M_PI/(fs->lx*fs->ly)/n;
}

/* Coupling coefficients of the flat-sky covariance: mean over the modes of both bandpowers */
int P_covinit_flat(nmt_field_flat *a1,nmt_binning_scheme_flat *bin,int i,int j)
{
  return (a1->fs->nx>=1) && (a1->fs->ny>=1) && (a1->fs->lx>0) && (a1->fs->ly>0) && (bin->n_bands>=1) &&
    (i>=0) && (j>=0) && (i<bin->n_bands) && (j<bin->n_bands);
}
nmt_covar_workspace_flat *S_covinit_flat(nmt_field_flat *a1,nmt_field_flat *a2,nmt_field_flat *b1,
                                         nmt_field_flat *b2,nmt_binning_scheme_flat *bin)
{
  a1->fs->npix=((long)(a1->fs->nx))*a1->fs->ny;
  a2->fs=a1->fs; b1->fs=a1->fs; b2->fs=a1->fs;
  return nmt_covar_workspace_flat_init(a1,a2,bin,b1,b2,bin);
}
double V_covinit_flat(nmt_covar_workspace_flat *cw,int which,int i,int j)
{
  if(which==0) return cw->xi00_1122[i][j];
  if(which==1) return cw->xi00_1221[i][j];
  if(which==2) return cw->xi02_1122[i][j];
  if(which==3) return cw->xi02_1221[i][j];
  if(which==4) return cw->xi22p_1122[i][j];
  if(which==5) return cw->xi22p_1221[i][j];
  if(which==6) return cw->xi22m_1122[i][j];
  if(which==7) return cw->xi22m_1221[i][j];
  if(which==8) return cw->bin->ell_0_list[i];
  if(which==9) return cw->bin->ell_f_list[i];
  return cw->bin->n_bands;
}
static void prodft(nmt_flatsky_info *fs,double *x,double *y,fcomplex **out)
{
  int i;
  double *z=my_malloc(fs->npix*sizeof(double));
  for(i=0;i<fs->npix;i++)
    z[i]=x[i]*y[i];
  fs_map2alm(fs,1,0,&z,out);
}
double W_covinit_flat(nmt_covar_workspace_flat *cw,nmt_field_flat *a1,nmt_field_flat *a2,nmt_field_flat *b1,
                      nmt_field_flat *b2,nmt_binning_scheme_flat *bin,int which,int i,int j)
{
  int ix,iy,jx,jy,n1=0,n2=0;
  double sum=0;
  nmt_flatsky_info *fs=a1->fs;
  if(which==8)
    return bin->ell_0_list[i];
  if(which==9)
    return bin->ell_f_list[i];
  if(which==10)
    return bin->n_bands;
  fcomplex *m1=dftw_malloc(fs->ny*(fs->nx/2+1)*sizeof(fcomplex));
  fcomplex *m2=dftw_malloc(fs->ny*(fs->nx/2+1)*sizeof(fcomplex));
  prodft(fs,a1->mask,(which%2) ? b2->mask : b1->mask,&m1);
  prodft(fs,a2->mask,(which%2) ? b1->mask : b2->mask,&m2);
  for(iy=0;iy<fs->ny;iy++) {
    for(ix=0;ix<fs->nx;ix++) {
      double kx=knum(ix,fs->nx,fs->lx),ky=knum(iy,fs->ny,fs->ly);
      double k1=sqrt(kx*kx+ky*ky);
      if(nmt_bins_flat_search_fast(cw->bin,k1,0)==j)
        n2++;
      if(nmt_bins_flat_search_fast(cw->bin,k1,0)==i) {
        n1++;
        for(jy=0;jy<fs->ny;jy++) {
          for(jx=0;jx<fs->nx;jx++) {
            double qx=knum(jx,fs->nx,fs->lx),qy=knum(jy,fs->ny,fs->ly);
            double k2=sqrt(qx*qx+qy*qy);
            if(nmt_bins_flat_search_fast(cw->bin,k2,0)==j) {
              double r[2],x;
              double c1=(k1>0) ? kx/k1 : 1,d1=(k1>0) ? ky/k1 : 0;
              double c2=(k2>0) ? qx/k2 : 1,d2=(k2>0) ? qy/k2 : 0;
              rot(2,c1,d1,c2,d2,r);
              x=maskmode(fs,m1,m2,(ix-jx<0) ? ix-jx+fs->nx : ix-jx,(iy-jy<0) ? iy-jy+fs->ny : iy-jy);
              if((which/2)==1)
                x*=r[0];
              else if((which/2)==2)
                x*=r[0]*r[0];
              else if((which/2)==3)
                x*=r[1]*r[1];
              sum+=x;
            }
          }
        }
      }
    }
  }
  if((n1==0) || (n2==0))
    return 0;
  return sum*4*M_PI*M_PI/(fs->lx*fs->lx*fs->ly*fs->ly)/n1/n2;
}
