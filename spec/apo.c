/* Reference formulas for the apodisation of masks. */
#include "config.h"
#include "utils.h"

static double profile(double x,int c2)
{
  if(c2)
    return 0.5*(1-cos(x*M_PI));
  return x-sin(x*2*M_PI)/(2*M_PI);
}

/* -------- flat patches, C1 and C2 -------- */
int P_apoflat(int nx,int ny,double lx,double ly,double size,int ip)
{
  return (nx>=1) && (ny>=1) && (lx>0) && (ly>0) && (size>0) && (ip>=0) && (ip<((long)nx)*ny);
}
/* m is signed: masked where it is not positive */
static flouble *signedmask(long n,flouble *m)
{
  long i;
  flouble *r=malloc(n*sizeof(flouble));
  for(i=0;i<n;i++)
    r[i]=m[i]-0.7;
  return r;
}
flouble *S_apoflat(int nx,int ny,double lx,double ly,double size,flouble *m,int c2)
{
  flouble *in=signedmask(((long)nx)*ny,m);
  flouble *out=malloc(((long)nx)*ny*sizeof(flouble));
  nmt_apodize_mask_flat(nx,ny,lx,ly,in,out,size,c2 ? "C2" : "C1");
  return out;
}
double V_apoflat(flouble *out,int ip)
{
  return out[ip];
}
double W_apoflat(flouble *out,int nx,int ny,double lx,double ly,double size,flouble *m,int c2,int ip)
{
  int jx,jy,ix=ip%nx,iy=ip/nx;
  double r=1E30,a=size*M_PI/180;
  for(jy=0;jy<ny;jy++) {
    for(jx=0;jx<nx;jx++) {
      double x=(jx-ix)*lx/nx,y=(jy-iy)*ly/ny;
      double d=sqrt(x*x+y*y);
      if((m[jx+nx*jy]-0.7<=0) && (d<r))
        r=d;
    }
  }
  if((m[ip]-0.7>0) && (r<a))
    return (m[ip]-0.7)*profile(r/a,c2);
  return m[ip]-0.7;
}

/* -------- flat patches, Smooth -------- */
int P_aposmooth(int nx,int ny,double lx,double ly,double size,int ip)
{
  return P_apoflat(nx,ny,lx,ly,size,ip);
}
flouble *S_aposmooth(int nx,int ny,double lx,double ly,double size,flouble *m)
{
  flouble *in=signedmask(((long)nx)*ny,m);
  flouble *out=malloc(((long)nx)*ny*sizeof(flouble));
  nmt_apodize_mask_flat(nx,ny,lx,ly,in,out,size,"Smooth");
  return out;
}
double V_aposmooth(flouble *out,int ip)
{
  return out[ip];
}
double W_aposmooth(flouble *out,int nx,int ny,double lx,double ly,double size,flouble *m,int ip)
{
  int i,j,q,h=nx/2+1;
  double a=size*M_PI/180;
  /* FWHM in arcminutes -> standard deviation */
  double sigma=(a*180*60*2.355/M_PI)*0.00012352884853326381;
  nmt_flatsky_info *fs=nmt_flatsky_info_alloc(nx,ny,lx,ly);
  flouble *z=malloc(fs->npix*sizeof(flouble)),*la=malloc(640*sizeof(flouble)),*fa=malloc(640*sizeof(flouble));
  fcomplex *al=malloc(ny*((long)h)*sizeof(fcomplex));
  for(i=0;i<nx*ny;i++) {
    int n=0;
    for(j=0;j<nx*ny;j++) {
      double x=(j%nx-i%nx)*lx/nx,y=(j/nx-i/nx)*ly/ny;
      if((m[j]-0.7<=0) && (sqrt(x*x+y*y)<=2.5*a))
        n++;
    }
    z[i]=(n>0) ? 0 : m[i]-0.7;
  }
  for(i=0;i<640;i++) {
    la[i]=i/(128*sigma);
    fa[i]=exp(-0.5*la[i]*la[i]*sigma*sigma);
  }
  nmt_k_function *b=nmt_k_function_alloc(640,la,fa,1.,0.,0);
  fs_map2alm(fs,1,0,&z,&al);
  for(q=0;q<ny*h;q++) {
    double kx=(q%h)*(2*M_PI/lx),ky=((2*(q/h)<=ny) ? q/h : -(ny-q/h))*(2*M_PI/ly);
    al[q]=al[q]*nmt_k_function_eval(b,sqrt(kx*kx+ky*ky),NULL);
  }
  fs_alm2map(fs,1,0,&z,&al);
  return (m[ip]-0.7)*z[ip];
}

/* -------- no apodisation -------- */
int P_apozero(int nx,int ny,double lx,double ly,int ip)
{
  return (nx>=1) && (ny>=1) && (lx>0) && (ly>0) && (ip>=0) && (ip<((long)nx)*ny);
}
flouble *S_apozero(int nx,int ny,double lx,double ly,flouble *m)
{
  flouble *out=malloc(((long)nx)*ny*sizeof(flouble));
  nmt_apodize_mask_flat(nx,ny,lx,ly,m,out,0.,"C1");
  return out;
}
double V_apozero(flouble *out,int ip)
{
  return out[ip];
}
double W_apozero(flouble *out,int nx,int ny,double lx,double ly,flouble *m,int ip)
{
  return m[ip];
}

/* -------- the sphere -------- */
static void where(long nside,long ip,double *v,double *cth,double *phi)
{
  he_pix2vec_ring(nside,ip,v);
  *cth=v[2];
  *phi=atan2(v[1],v[0]);
  if(*phi<0)
    *phi+=2*M_PI;
}

int P_aposph(int nside,double size,int ip)
{
  return (nside>=1) && (size>0) && ((int)(4*12*((long)nside)*nside*(1-cos(1.2*size*M_PI/180)))>=2) && (ip>=0) && (ip<12*((long)nside)*nside);
}
flouble *S_aposph(int nside,double size,flouble *m,int c2)
{
  long np=12*((long)nside)*nside;
  flouble *in=signedmask(np,m);
  flouble *out=malloc(np*sizeof(flouble));
  nmt_apodize_mask(nside,in,out,size,c2 ? "C2" : "C1");
  return out;
}
double V_aposph(flouble *out,int ip)
{
  return out[ip];
}
double W_aposph(flouble *out,int nside,double size,flouble *m,int c2,int ip)
{
  int j,n,cap=(int)(4*12*((long)nside)*nside*(1-cos(1.2*size*M_PI/180)));
  int *list=malloc(cap*sizeof(int));
  double v[3],w[3],cth,phi,x=1E30,xa=1-cos(size*M_PI/180);
  where(nside,ip,v,&cth,&phi);
  n=cap/2;
  he_query_disc(nside,cth,phi,1.2*size*M_PI/180,list,&n,1);
  for(j=0;j<n;j++) {
    he_pix2vec_ring(nside,list[j],w);
    double d=1-v[0]*w[0]-v[1]*w[1]-v[2]*w[2];
    if((m[list[j]]-0.7<=0) && (d<x))
      x=d;
  }
  if((m[ip]-0.7>0) && (x<xa))
    return (m[ip]-0.7)*((x<=0) ? 0 : profile(sqrt(x/xa),c2));
  return m[ip]-0.7;
}

int P_aposphsm(int nside,double size,int ip)
{
  return (nside>=1) && (size>0) && ((int)(4*12*((long)nside)*nside*(1-cos(2.5*size*M_PI/180)))>=2) &&
    (ip>=0) && (ip<12*((long)nside)*nside);
}
flouble *S_aposphsm(int nside,double size,flouble *m)
{
  long np=12*((long)nside)*nside;
  flouble *in=signedmask(np,m);
  flouble *out=malloc(np*sizeof(flouble));
  nmt_apodize_mask(nside,in,out,size,"Smooth");
  return out;
}
double V_aposphsm(flouble *out,int ip)
{
  return out[ip];
}
double W_aposphsm(flouble *out,int nside,double size,flouble *m,int ip)
{
  long np=12*((long)nside)*nside;
  int i,j,n,hit=0,cap=(int)(4*np*(1-cos(2.5*size*M_PI/180)));
  int *list=malloc(cap*sizeof(int));
  double v[3],cth,phi;
  for(i=0;i<np;i++) {
    where(nside,i,v,&cth,&phi);
    n=cap/2;
    he_query_disc(nside,cth,phi,2.5*size*M_PI/180,list,&n,1);
    for(j=0;j<n;j++) {
      if((m[i]-0.7<=0) && (list[j]==ip))
        hit++;
    }
  }
  return (hit>0) ? 0 : m[ip]-0.7;
}

int P_aposphzero(int nside,int ip)
{
  return (nside>=1) && (ip>=0) && (ip<12*((long)nside)*nside);
}
flouble *S_aposphzero(int nside,flouble *m)
{
  flouble *out=malloc(12*((long)nside)*nside*sizeof(flouble));
  nmt_apodize_mask(nside,m,out,0.,"C1");
  return out;
}
double V_aposphzero(flouble *out,int ip)
{
  return out[ip];
}
double W_aposphzero(flouble *out,int nside,flouble *m,int ip)
{
  return m[ip];
}
