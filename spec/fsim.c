/* Reference formulas for flat-sky simulations and Fourier transforms. */
#include "config.h"
#include "utils.h"

int P_synflat(int nx,int ny,double lx,double ly,int nlb,int nlc,int ip)
{
  return (nx>=1) && (ny>=1) && (ny%2==1) && (lx>0) && (ly>0) && (nlb>1) && (nlc>1) && (ip>=0) && (ip<((long)nx)*ny);
}

flouble **S_synflat(int nx,int ny,double lx,double ly,int nlb,flouble *lb,flouble **beam,int nlc,flouble *lc,
                    flouble **cells,int seed,int nf,int s1,int s2,int s3)
{
  int sp[3];
  sp[0]=s1; sp[1]=s2; sp[2]=s3;
  return nmt_synfast_flat(nx,ny,lx,ly,nf,sp,nlb,lb,beam,nlc,lc,cells,seed);
}
double V_synflat(flouble **maps,int i,int ip)
{
  return maps[i][ip];
}
static double fun(int n,flouble *x,flouble *y,double k)
{
  return nmt_k_function_eval(nmt_k_function_alloc(n,x,y,y[0],0.,0),k,NULL);
}
double W_synflat(flouble **maps,int nx,int ny,double lx,double ly,int nlb,flouble *lb,flouble **beam,int nlc,flouble *lc,
                 flouble **cells,int seed,int nf,int s1,int s2,int s3,int i,int ip)
{
  int sp[3],f,c,m,j,n=0,first[3],ix,iy,fi=0,ci=0;
  long nmodes=ny*((long)(nx/2+1));
  gsl_rng *rng=init_rng(seed);
  fcomplex *al[6];
  flouble *mo[2];
  nmt_flatsky_info *fs=nmt_flatsky_info_alloc(nx,ny,lx,ly);
  sp[0]=s1; sp[1]=s2; sp[2]=s3;
  for(f=0;f<nf;f++) {
    first[f]=n;
    n+=(sp[f] ? 2 : 1);
    if((i>=first[f]) && (i<n)) {
      fi=f;
      ci=i-first[f];
    }
  }
  gsl_vector *ev=gsl_vector_alloc(n);
  gsl_matrix *vec=gsl_matrix_alloc(n,n);
  gsl_matrix *mat=gsl_matrix_alloc(n,n);
  for(m=0;m<n;m++)
    al[m]=dftw_malloc(nmodes*sizeof(fcomplex));
  for(c=0;c<2;c++)
    mo[c]=dftw_malloc(fs->npix*sizeof(flouble));
  for(iy=0;iy<ny;iy++) {
    for(ix=0;ix<=nx/2;ix++) {
      int q=ix+(nx/2+1)*iy;
      double re[6],im[6],r,t;
      double kx=ix*(2*M_PI/lx),ky=((2*iy<=ny) ? iy : -(ny-iy))*(2*M_PI/ly);
      double k=sqrt(kx*kx+ky*ky);
      for(m=0;m<n;m++) {
        for(j=0;j<n;j++) {
          int lo=(m<j) ? m : j,hi=(m<j) ? j : m;
          int ic=lo*n-lo*(lo-1)/2+hi-lo;
          gsl_matrix_set(mat,m,j,fun(nlc,lc,cells[ic],k)*lx*ly/(8*M_PI*M_PI));
        }
      }
      gsl_eigen_symmv(mat,ev,vec,NULL);
      for(m=0;m<n;m++)
        rng_gauss(rng,&(re[m]),&(im[m]));
      for(m=first[fi];m<first[fi]+(sp[fi] ? 2 : 1);m++) {
        r=t=0;
        for(j=0;j<n;j++) {
          double e=gsl_vector_get(ev,j);
          double a=gsl_matrix_get(vec,m,j)*((e<=0) ? 0 : sqrt(e));
          r+=a*re[j];
          t+=a*im[j];
        }
        r*=fun(nlb,lb,beam[fi],k);
        t*=fun(nlb,lb,beam[fi],k);
        if(ix>0)
          al[m][q]=r+I*t;
        else if(iy==0)
          al[m][q]=M_SQRT2*r;
        else if(iy<=ny/2) {
          al[m][q]=r+I*t;
          al[m][(nx/2+1)*(ny-iy)]=r-I*t;
        }
      }
    }
  }
  fs_alm2map(fs,1,sp[fi],mo,&(al[first[fi]]));
  return mo[ci][ip];
}

/* -------- Fourier transforms -------- */
static double wavey(nmt_flatsky_info *fs,int iy)
{
  return ((2*iy<=fs->ny) ? iy : -(fs->ny-iy))*(2*M_PI/fs->ly);
}
/* cosine and sine of spin times the angle of the wavevector */
static void turn(nmt_flatsky_info *fs,int spin,int q,double *c,double *s)
{
  int h=fs->nx/2+1,j;
  double kx=(q%h)*(2*M_PI/fs->lx),ky=wavey(fs,q/h);
  double k2=kx*kx+ky*ky;
  double c1=(k2<=0) ? 1 : kx/sqrt(k2);
  double s1=(k2<=0) ? 0 : ky/sqrt(k2);
  double cc=1,ss=0;
  for(j=0;j<spin;j++) {
    double t=cc*c1-ss*s1;
    ss=ss*c1+cc*s1;
    cc=t;
  }
  *c=cc;
  *s=ss;
}
static fcomplex phase(int spin,int sign)
{
  int j;
  fcomplex r=-1;
  for(j=0;j<spin;j++)
    r*=sign*I;
  return r;
}
static void forward(nmt_flatsky_info *fs,flouble *m,fcomplex *a)
{
  fftw_plan p=fftw_plan_dft_r2c_2d(fs->ny,fs->nx,m,a,FFTW_ESTIMATE);
  fftw_execute(p);
  fftw_destroy_plan(p);
}
static long modes(nmt_flatsky_info *fs)
{
  return fs->ny*((long)(fs->nx/2+1));
}

int P_map2alm(int nx,int ny,double lx,double ly,int q)
{
  return (nx>=1) && (ny>=1) && (lx>0) && (ly>0) && (q>=0) && (q<ny*((long)(nx/2+1)));
}
fcomplex **S_map2alm(int nx,int ny,double lx,double ly,int nt,int spin,int nm,flouble **maps)
{
  int i;
  nmt_flatsky_info *fs=nmt_flatsky_info_alloc(nx,ny,lx,ly);
  fcomplex **a=malloc(nm*sizeof(fcomplex *));
  for(i=0;i<nm;i++)
    a[i]=dftw_malloc(modes(fs)*sizeof(fcomplex));
  fs_map2alm(fs,nt,spin,maps,a);
  return a;
}
fcomplex V_map2alm(fcomplex **a,int i,int q)
{
  return a[i][q];
}
fcomplex W_map2alm(fcomplex **al,int nx,int ny,double lx,double ly,int nt,int spin,int nm,flouble **maps,int i,int q)
{
  double c,s,n=lx*ly/(2*M_PI*nx*ny);
  nmt_flatsky_info *fs=nmt_flatsky_info_alloc(nx,ny,lx,ly);
  fcomplex *a=dftw_malloc(modes(fs)*sizeof(fcomplex)),*b=dftw_malloc(modes(fs)*sizeof(fcomplex));
  if(spin==0) {
    forward(fs,maps[i],a);
    return a[q]*n;
  }
  forward(fs,maps[i-i%2],a);
  forward(fs,maps[i-i%2+1],b);
  turn(fs,spin,q,&c,&s);
  if(i%2==0)
    return phase(spin,1)*n*(a[q]*c-b[q]*s);
  return phase(spin,1)*n*(a[q]*s+b[q]*c);
}

int P_alm2map(int nx,int ny,double lx,double ly,int ip)
{
  return (nx>=1) && (ny>=1) && (lx>0) && (ly>0) && (ip>=0) && (ip<((long)nx)*ny);
}
flouble **S_alm2map(int nx,int ny,double lx,double ly,int nt,int spin,int nm,fcomplex **alms)
{
  int i;
  nmt_flatsky_info *fs=nmt_flatsky_info_alloc(nx,ny,lx,ly);
  flouble **m=malloc(nm*sizeof(flouble *));
  fcomplex **b=malloc(nm*sizeof(fcomplex *));
  for(i=0;i<nm;i++) {
    int q;
    m[i]=dftw_malloc(fs->npix*sizeof(flouble));
    b[i]=dftw_malloc(modes(fs)*sizeof(fcomplex));
    for(q=0;q<modes(fs);q++)
      b[i][q]=alms[i][q];
  }
  fs_alm2map(fs,nt,spin,m,b);
  return m;
}
double V_alm2map(flouble **m,int i,int ip)
{
  return m[i][ip];
}
double W_alm2map(flouble **mm,int nx,int ny,double lx,double ly,int nt,int spin,int nm,fcomplex **alms,int i,int ip)
{
  int q;
  nmt_flatsky_info *fs=nmt_flatsky_info_alloc(nx,ny,lx,ly);
  fcomplex *a=dftw_malloc(modes(fs)*sizeof(fcomplex));
  flouble *m=dftw_malloc(fs->npix*sizeof(flouble));
  fftw_plan p;
  for(q=0;q<modes(fs);q++) {
    double c,s;
    turn(fs,spin,q,&c,&s);
    if(spin==0)
      a[q]=alms[i][q];
    else if(i%2==0)
      a[q]=phase(spin,-1)*(alms[i][q]*c+alms[i+1][q]*s);
    else
      a[q]=phase(spin,-1)*(-alms[i-1][q]*s+alms[i][q]*c);
  }
  p=fftw_plan_dft_c2r_2d(fs->ny,fs->nx,a,m,FFTW_ESTIMATE);
  fftw_execute(p);
  fftw_destroy_plan(p);
  return m[ip]*2*M_PI/(lx*ly);
}
