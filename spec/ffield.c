/* Reference formulas for flat-sky fields. */
#include "config.h"
#include "utils.h"


/* a private copy of the inputs, as the C interface works in place */
static flouble **copies(long npix,int n,flouble **src)
{
  int i;
  long p;
  flouble **d=my_malloc(n*sizeof(flouble *));
  for(i=0;i<n;i++) {
    d[i]=dftw_malloc(npix*sizeof(flouble));
    for(p=0;p<npix;p++)
      d[i][p]=src[i][p];
  }
  return d;
}

int P_ffield(int nx,int ny,double lx,double ly,int ip,int l,int nl,int nobeam,flouble *beam)
{
  return (nobeam || (beam!=NULL)) && (nx>=1) && (ny>=1) && (lx>0) && (ly>0) && (nl>1) && (ip>=0) && (ip<((long)nx)*ny) && (l>=0) && (l<((long)ny)*(nx/2+1));
}

nmt_field_flat *S_ffield(int nx,int ny,double lx,double ly,flouble *mask,flouble **maps,flouble ***temp,
                         int nl,flouble *lb,flouble *beam,double tol,int spin,int ntemp,int pe,int pb,
                         int masked,int lite,int only,int nobeam)
{
  int i,nmaps=spin ? 2 : 1;
  long npix=((long)nx)*ny;
  flouble **m=NULL,***t=NULL;
  if(!only) {
    m=copies(npix,nmaps,maps);
    if(ntemp) {
      t=my_malloc(ntemp*sizeof(flouble **));
      for(i=0;i<ntemp;i++)
        t[i]=copies(npix,nmaps,temp[i]);
    }
  }
  return nmt_field_flat_alloc(nx,ny,lx,ly,mask,spin,m,ntemp,t,nl,lb,nobeam ? NULL : beam,pe,pb,tol,masked,
                              lite,only);
}

/* what: 0 multipoles, 1 maps, 2 templates, 3 multipoles of templates, 4 mask, 5 multipoles of the
   mask, 6 deprojection matrix, 7 beam, 8 numbers, 9 members that are not there */
fcomplex V_ffield(nmt_field_flat *fl,int what,int i,int j,int ip,int l,double k)
{
  switch(what) {
  case 0: return fl->alms[i][l];
  case 1: return fl->maps[i][ip];
  case 2: return fl->temp[j][i][ip];
  case 3: return fl->a_temp[j][i][l];
  case 4: return fl->mask[ip];
  case 5: return fl->a_mask[0][l];
  case 6: return gsl_matrix_get(fl->matrix_M,i,j);
  case 7: return nmt_k_function_eval(fl->beam,k,NULL);
  case 8:
    switch(i) {
    case 0: return fl->nmaps;
    case 1: return fl->ntemp;
    case 2: return fl->spin;
    case 3: return fl->npix;
    case 4: return fl->pure_e;
    case 5: return fl->pure_b;
    case 6: return fl->fs->nx;
    case 7: return fl->fs->ny;
    case 8: return fl->fs->lx;
    case 9: return fl->fs->ly;
    case 10: return fl->lite;
    case 11: return fl->mask_only;
    }
  case 9:
    switch(i) {
    case 0: return fl->maps==NULL;
    case 1: return fl->alms==NULL;
    case 2: return fl->a_mask==NULL;
    case 3: return fl->temp==NULL;
    case 4: return fl->a_temp==NULL;
    }
  }
  return 0;
}

/* unmasked (u=1) or masked (u=0) version of an input map */
static flouble **version(long npix,int n,flouble *mask,flouble **src,int masked,int u)
{
  int i;
  long p;
  flouble **d=copies(npix,n,src);
  for(i=0;i<n;i++) {
    for(p=0;p<npix;p++) {
      if(masked && u)
        d[i][p]=(mask[p]>0) ? src[i][p]/mask[p] : 0;
      if(!masked && !u)
        d[i][p]=src[i][p]*mask[p];
    }
  }
  return d;
}

static double dot(nmt_flatsky_info *fs,int n,flouble **a,flouble **b)
{
  int i;
  long p;
  double s=0;
  for(i=0;i<n;i++) {
    for(p=0;p<fs->npix;p++)
      s+=a[i][p]*b[i][p];
  }
  return s*fs->lx*fs->ly/(fs->nx*(double)(fs->ny));
}

static double kmodulus(nmt_flatsky_info *fs,int l)
{
  int ix=l%(fs->nx/2+1),iy=l/(fs->nx/2+1);
  double kx=ix*2*M_PI/fs->lx,ky=((2*iy<=fs->ny) ? iy : iy-fs->ny)*2*M_PI/fs->ly;
  return sqrt(kx*kx+ky*ky);
}

/* multipoles of a map with optional purification of its components;
   out: the multipoles; mout: the map they make */
static void purified(nmt_flatsky_info *fs,flouble *mask,fcomplex *mlm,int pe,int pb,flouble **in,
                     fcomplex **out,flouble **mout)
{
  int i,q,iy,ix;
  long p,nmodes=fs->ny*((long)(fs->nx/2+1));
  flouble *a[2],*w[2];
  fcomplex *wl[2],*o[2],*r[2];
  for(i=0;i<2;i++) {
    a[i]=dftw_malloc(fs->npix*sizeof(flouble));
    w[i]=dftw_malloc(fs->npix*sizeof(flouble));
    wl[i]=dftw_malloc(nmodes*sizeof(fcomplex));
    o[i]=dftw_malloc(nmodes*sizeof(fcomplex));
    r[i]=dftw_malloc(nmodes*sizeof(fcomplex));
    for(p=0;p<fs->npix;p++)
      a[i][p]=mask[p]*in[i][p];
  }
  fs_map2alm(fs,1,2,a,out);
  for(q=1;q<=2;q++) {
    for(iy=0;iy<fs->ny;iy++) {
      for(ix=0;ix<=fs->nx/2;ix++) {
        int n=ix+(fs->nx/2+1)*iy;
        double kx=ix*(2*M_PI/fs->lx),ky=((2*iy<=fs->ny) ? iy : -(fs->ny-iy))*(2*M_PI/fs->ly);
        double k=sqrt(kx*kx+ky*ky);
        wl[0][n]=-mlm[n]*((q==1) ? k : k*k);
        wl[1][n]=0;
      }
    }
    fs_alm2map(fs,1,q,w,wl);
    for(p=0;p<fs->npix;p++) {
      double sg=(q==1) ? 1 : -1;
      a[0][p]=sg*(w[0][p]*in[0][p]+w[1][p]*in[1][p]);
      a[1][p]=sg*(w[0][p]*in[1][p]-w[1][p]*in[0][p]);
    }
    if(q==1)
      fs_map2alm(fs,1,1,a,o);
    else
      fs_map2alm(fs,2,0,a,o);
    for(i=0;i<2;i++) {
      if((i==0) ? pe : pb) {
        for(iy=0;iy<fs->ny;iy++) {
          for(ix=0;ix<=fs->nx/2;ix++) {
            int n=ix+(fs->nx/2+1)*iy;
            double kx=ix*(2*M_PI/fs->lx),ky=((2*iy<=fs->ny) ? iy : -(fs->ny-iy))*(2*M_PI/fs->ly);
            double k=sqrt(kx*kx+ky*ky);
            if(k>0)
              out[i][n]+=o[i][n]*((q==1) ? 2/k : 1/(k*k));
          }
        }
      }
    }
  }
  for(i=0;i<2;i++) {
    for(p=0;p<nmodes;p++)
      r[i][p]=out[i][p];
  }
  fs_alm2map(fs,1,2,mout,r);
}

fcomplex W_ffield(nmt_field_flat *fl,int nx,int ny,double lx,double ly,flouble *mask,flouble **maps,
                  flouble ***temp,int nl,flouble *lb,flouble *beam,double tol,int spin,int ntemp,int pe,
                  int pb,int masked,int lite,int only,int nobeam,int what,int i,int j,int ip,int l,double k)
{
  int c,t,u,n=spin ? 2 : 1,pure=(spin==2) && (pe || pb);
  long p,npix=((long)nx)*ny,nmodes=ny*((long)(nx/2+1));
  flouble **m[2],**f[2][3],*mo[2],*mk[1];
  fcomplex *al[2];
  nmt_flatsky_info *fs=nmt_flatsky_info_alloc(nx,ny,lx,ly);
  gsl_matrix *N=NULL;
  fcomplex *ml=dftw_malloc(nmodes*sizeof(fcomplex));
  if(only)
    lite=1;
  switch(what) {
  case 4: return mask[ip];
  case 7:
    if(nobeam)
      return nmt_k_function_eval(nmt_k_function_alloc(-1,NULL,NULL,1.,1.,1),k,NULL);
    return nmt_k_function_eval(nmt_k_function_alloc(nl,lb,beam,beam[0],0.,0),k,NULL);
  case 8:
    switch(i) {
    case 0: return n;
    case 1: return ntemp;
    case 2: return spin;
    case 3: return npix;
    case 4: return (spin==2) && pe;
    case 5: return (spin==2) && pb;
    case 6: return nx;
    case 7: return ny;
    case 8: return lx;
    case 9: return ly;
    case 10: return lite;
    case 11: return only;
    }
  case 9:
    switch(i) {
    case 0: return lite;
    case 1: return only;
    case 2: return lite || !pure;
    case 3: return lite || !ntemp;
    case 4: return lite || !ntemp;
    }
  }
  for(c=0;c<2;c++) {
    al[c]=dftw_malloc(nmodes*sizeof(fcomplex));
    mo[c]=dftw_malloc(npix*sizeof(flouble));
  }
  mk[0]=mask;
  fs_map2alm(fs,1,0,mk,&ml);
  if(what==5) {
    return ml[l];
  }
  for(u=0;u<2;u++) {
    m[u]=version(npix,n,mask,maps,masked,u);
    for(t=0;t<ntemp;t++)
      f[u][t]=version(npix,n,mask,temp[t],masked,u);
  }
  if(ntemp) {
    int t2;
    double pr[3];
    N=gsl_matrix_alloc(ntemp,ntemp);
    for(t=0;t<ntemp;t++) {
      pr[t]=dot(fs,n,f[0][t],m[0]);
      for(t2=0;t2<ntemp;t2++)
        gsl_matrix_set(N,t,t2,(t<=t2) ? dot(fs,n,f[0][t],f[0][t2]) : dot(fs,n,f[0][t2],f[0][t]));
    }
    moore_penrose_pinv(N,tol);
    if(what==6)
      return gsl_matrix_get(N,i,j);
    for(t=0;t<ntemp;t++) {
      double alpha=0;
      for(t2=0;t2<ntemp;t2++)
        alpha+=gsl_matrix_get(N,t,t2)*pr[t2];
      for(c=0;c<n;c++) {
        for(p=0;p<npix;p++) {
          m[0][c][p]-=alpha*f[0][t][c][p];
          m[1][c][p]-=alpha*f[1][t][c][p];
        }
      }
    }
  }
  if(what==2) {
    if(pure)
      return f[1][j][i][ip]*mask[ip];
    return f[0][j][i][ip];
  }
  if((what==0) || (what==1)) {
    if(pure) {
      purified(fs,mask,ml,pe,pb,m[1],al,mo);
      return what ? mo[i][ip] : al[i][l];
    }
    fs_map2alm(fs,1,spin,m[0],al);
    return what ? m[0][i][ip] : al[i][l];
  }
  if(pure)
    purified(fs,mask,ml,pe,pb,f[1][j],al,mo);
  else
    fs_map2alm(fs,1,spin,f[0][j],al);
  return al[i][l];
}

/* deprojection bias of flat-sky spectra */
static int incut(double k,double a,double b)
{
  return (k>=a) && (k<=b);
}

/* mean over the modes of bandpower i of the product of two sets of coefficients */
static double bandmean(nmt_flatsky_info *fs,nmt_binning_scheme_flat *bin,double lxa,double lxb,double lya,
                       double lyb,fcomplex *a,fcomplex *b,int i)
{
  int ix,iy,n=0;
  double sum=0;
  for(iy=0;iy<fs->ny;iy++) {
    for(ix=0;ix<fs->nx;ix++) {
      double kx=((2*ix<=fs->nx) ? ix : ix-fs->nx)*(2*M_PI/fs->lx);
      double ky=((2*iy<=fs->ny) ? iy : iy-fs->ny)*(2*M_PI/fs->ly);
      int jx=(2*ix<=fs->nx) ? ix : fs->nx-ix,jy=(2*ix<=fs->nx) ? iy : ((iy==0) ? 0 : fs->ny-iy);
      fcomplex p=a[jx+(fs->nx/2+1)*jy],q=b[jx+(fs->nx/2+1)*jy];
      if((nmt_bins_flat_search_fast(bin,sqrt(kx*kx+ky*ky),0)==i) && !incut(kx,lxa,lxb) && !incut(ky,lya,lyb)) {
        n++;
        sum+=creal(p)*creal(q)+cimag(p)*cimag(q);
      }
    }
  }
  if(n<=0)
    return 0;
  return sum*4*M_PI*M_PI/(fs->lx*fs->ly)/n;
}

/* what the signal correlated with a template of one field makes of the other: map and multipoles */
static void response(nmt_field_flat *fa,nmt_field_flat *fb,int t,int nl,double *larr,double **cl,int n2,int tr,
                     flouble **map,fcomplex **alm)
{
  int c,d,ix,iy,na=fa->spin ? 2 : 1,nb=fb->spin ? 2 : 1;
  long p;
  nmt_flatsky_info *fs=fa->fs;
  long npix=((long)(fs->nx))*fs->ny,nmodes=fs->ny*((long)(fs->nx/2+1));
  flouble *w[2],*q[2];
  fcomplex *x[2],*y[2];
  for(c=0;c<2;c++) {
    w[c]=dftw_malloc(npix*sizeof(flouble));
    q[c]=dftw_malloc(npix*sizeof(flouble));
    x[c]=dftw_malloc(nmodes*sizeof(fcomplex));
    y[c]=dftw_malloc(nmodes*sizeof(fcomplex));
  }
  for(c=0;c<nb;c++) {
    for(p=0;p<npix;p++)
      w[c][p]=fb->temp[t][c][p]*fb->mask[p];
  }
  fs_map2alm(fs,1,fb->spin,w,x);
  for(c=0;c<na;c++) {
    for(iy=0;iy<fs->ny;iy++) {
      for(ix=0;ix<=fs->nx/2;ix++) {
        int n=ix+(fs->nx/2+1)*iy;
        double kx=ix*(2*M_PI/fs->lx),ky=((2*iy<=fs->ny) ? iy : -(fs->ny-iy))*(2*M_PI/fs->ly);
        double k=sqrt(kx*kx+ky*ky);
        y[c][n]=0;
        for(d=0;d<nb;d++) {
          int s=tr ? d*n2+c : c*n2+d;
          y[c][n]+=x[d][n]*nmt_k_function_eval(nmt_k_function_alloc(nl,larr,cl[s],cl[s][0],0,0),k,NULL);
        }
      }
    }
  }
  fs_alm2map(fs,1,fa->spin,map,y);
  for(c=0;c<na;c++) {
    for(p=0;p<npix;p++)
      q[c][p]=map[c][p]*fa->mask[p];
  }
  if(fa->pure_e || fa->pure_b)
    purified(fs,fa->mask,fa->a_mask[0],fa->pure_e,fa->pure_b,map,alm,w);
  else
    fs_map2alm(fs,1,fa->spin,q,alm);
  for(c=0;c<na;c++)
    map[c]=q[c];
}

int P_fdeproj(nmt_field_flat *fl1,nmt_binning_scheme_flat *bin,int nl,int i)
{
  return (i>=0) && (i<bin->n_bands) && (fl1->fs->nx>0) && (fl1->fs->ny>0) && (fl1->fs->lx>0) && (fl1->fs->ly>0) && (nl>1);
}

static void fsetup(nmt_field_flat *fl1,nmt_field_flat *fl2,int s1,int s2,int t1,int t2,int pe1,int pb1,int pe2,int pb2)
{
  int i,j;
  fl1->spin=s1; fl1->nmaps=s1 ? 2 : 1; fl1->ntemp=t1; fl1->lite=0; fl1->mask_only=0; fl1->pure_e=pe1; fl1->pure_b=pb1;
  fl2->spin=s2; fl2->nmaps=s2 ? 2 : 1; fl2->ntemp=t2; fl2->lite=0; fl2->mask_only=0; fl2->pure_e=pe2; fl2->pure_b=pb2;
  fl2->fs->nx=fl1->fs->nx; fl2->fs->ny=fl1->fs->ny;
  fl2->fs->lx=fl1->fs->lx; fl2->fs->ly=fl1->fs->ly;
  fl1->fs->npix=fl2->fs->npix=fl1->npix=fl2->npix=((long)(fl1->fs->nx))*fl1->fs->ny;
  fl1->fs->pixsize=fl2->fs->pixsize=fl1->fs->lx*fl1->fs->ly/(fl1->fs->nx*(double)(fl1->fs->ny));
  for(i=0;i<t1;i++) {
    for(j=0;j<i;j++)
      gsl_matrix_set(fl1->matrix_M,i,j,gsl_matrix_get(fl1->matrix_M,j,i));
  }
  for(i=0;i<t2;i++) {
    for(j=0;j<i;j++)
      gsl_matrix_set(fl2->matrix_M,i,j,gsl_matrix_get(fl2->matrix_M,j,i));
  }
}

double L_fdeproj(nmt_field_flat *fl1,nmt_field_flat *fl2,nmt_binning_scheme_flat *bin,int nl,double *larr,
                 double **cl,double **out,double lxa,double lxb,double lya,double lyb,
                 int s1,int s2,int t1,int t2,int pe1,int pb1,int pe2,int pb2,int a,int i)
{
  fsetup(fl1,fl2,s1,s2,t1,t2,pe1,pb1,pe2,pb2);
  nmt_compute_deprojection_bias_flat(fl1,fl2,bin,lxa,lxb,lya,lyb,nl,larr,cl,out);
  return out[a][i];
}

double R_fdeproj(nmt_field_flat *fl1,nmt_field_flat *fl2,nmt_binning_scheme_flat *bin,int nl,double *larr,
                 double **cl,double **out,double lxa,double lxb,double lya,double lyb,
                 int s1,int s2,int t1,int t2,int pe1,int pb1,int pe2,int pb2,int a,int i)
{
  int ti,tj,tp,tq,c,n1=s1 ? 2 : 1,n2=s2 ? 2 : 1,ma=a/n2,mb=a%n2;
  double bias=0;
  nmt_flatsky_info *fs=fl1->fs;
  long p,npix,nmodes;
  flouble *m[2];
  fcomplex *al[2];
  fsetup(fl1,fl2,s1,s2,t1,t2,pe1,pb1,pe2,pb2);
  npix=((long)(fs->nx))*fs->ny;
  nmodes=fs->ny*((long)(fs->nx/2+1));
  for(c=0;c<2;c++)
    al[c]=dftw_malloc(nmodes*sizeof(fcomplex));
  for(tj=0;tj<t2;tj++) {
    for(c=0;c<2;c++)
      m[c]=dftw_malloc(npix*sizeof(flouble));
    response(fl1,fl2,tj,nl,larr,cl,n2,0,m,al);
    for(ti=0;ti<t2;ti++)
      bias-=gsl_matrix_get(fl2->matrix_M,ti,tj)*bandmean(fs,bin,lxa,lxb,lya,lyb,al[ma],fl2->a_temp[ti][mb],i);
    for(ti=0;ti<t1;ti++) {
      double d=0;
      for(c=0;c<n1;c++) {
        for(p=0;p<npix;p++)
          d+=m[c][p]*fl1->temp[ti][c][p];
      }
      d*=fs->lx*fs->ly/(fs->nx*(double)(fs->ny));
      for(tp=0;tp<t1;tp++) {
        for(tq=0;tq<t2;tq++)
          bias+=gsl_matrix_get(fl1->matrix_M,tp,ti)*gsl_matrix_get(fl2->matrix_M,tq,tj)*d*
            bandmean(fs,bin,lxa,lxb,lya,lyb,fl1->a_temp[tp][ma],fl2->a_temp[tq][mb],i);
      }
    }
  }
  for(tj=0;tj<t1;tj++) {
    for(c=0;c<2;c++)
      m[c]=dftw_malloc(npix*sizeof(flouble));
    response(fl2,fl1,tj,nl,larr,cl,n2,1,m,al);
    for(ti=0;ti<t1;ti++)
      bias-=gsl_matrix_get(fl1->matrix_M,ti,tj)*bandmean(fs,bin,lxa,lxb,lya,lyb,fl1->a_temp[ti][ma],al[mb],i);
  }
  return bias;
}
