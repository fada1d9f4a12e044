/* Reference formulas for Gaussian covariances.

   Wick's theorem: Cov(C^ab_l, C^cd_l') = <ac><bd> + <ad><bc>.  The correlator of component m of
   one field with component n of another is the true spectrum of components (m',n') times
     1                                     if either field is a scalar,
     P*d(m,m')*d(n,n') + M*(e(m,m')*d(n,n')-d(m,m')*e(n,n'))   if neither is,
   where P and M are the even and odd parts of the response, d is the identity and e the
   antisymmetric symbol.  The averages over modes of the products of two of these (with the
   spectrum of the product of the four masks) are the xis: <1 1>=xi00, <1 P>=xi02, <P P>=xi22p,
   <M M>=-xi22m (the sign of the published approximation), all others vanish. */
#include "config.h"
#include "utils.h"

/* response of a pair of fields: 0, 1, P (2) or M (3) with a sign */
static int pairresp(int nx,int ny,int x,int xp,int y,int yp,int *sign)
{
  *sign=1;
  if((nx==1) || (ny==1))
    return (x==xp) && (y==yp);
  if((x==xp) && (y==yp))
    return 2;
  if((x!=xp) && (y!=yp))
    return 0;
  if(x!=xp)
    *sign=(x<xp) ? 1 : -1;
  else
    *sign=(y<yp) ? -1 : 1;
  return 3;
}

static double pairxi(double xi00,double xi02,double xi22p,double xi22m,
                     int nx,int ny,int x,int xp,int y,int yp,
                     int nu,int nv,int u,int up,int v,int vp)
{
  int s1,s2;
  int r1=pairresp(nx,ny,x,xp,y,yp,&s1);
  int r2=pairresp(nu,nv,u,up,v,vp,&s2);
  if((r1==0) || (r2==0))
    return 0;
  if((r1==3) || (r2==3))
    return (r1==r2) ? -s1*s2*xi22m : 0;
  if(r1*r2==1)
    return xi00;
  return (r1*r2==2) ? xi02 : xi22p;
}

static void sizes(nmt_workspace *wa,nmt_workspace *wb,int sa,int sb,int sc,int sd)
{
  wa->ncls=(sa ? 2 : 1)*(sb ? 2 : 1);
  wb->ncls=(sc ? 2 : 1)*(sd ? 2 : 1);
}

/* covariance of the coupled spectra (ia,ib) at la and (ic,id) at lb */
static double wick(nmt_covar_workspace *cw,int sa,int sb,int sc,int sd,
                   double **clac,double **clad,double **clbc,double **clbd,
                   int la,int lb,int ia,int ib,int ic,int id)
{
  int na=sa ? 2 : 1,nb=sb ? 2 : 1,nc=sc ? 2 : 1,nd=sd ? 2 : 1;
  int i,j,k,l;
  double s=0;
  for(i=0;i<na;i++) {
    for(j=0;j<nb;j++) {
      for(k=0;k<nc;k++) {
        for(l=0;l<nd;l++) {
          double *ac=clac[i*nc+k],*bd=clbd[j*nd+l],*ad=clad[i*nd+l],*bc=clbc[j*nc+k];
          s+=0.5*(ac[la]*bd[lb]+ac[lb]*bd[la])*
            pairxi(cw->xi00_1122[la][lb],cw->xi02_1122[la][lb],cw->xi22p_1122[la][lb],
                   cw->xi22m_1122[la][lb],na,nc,ia,i,ic,k,nb,nd,ib,j,id,l);
          s+=0.5*(ad[la]*bc[lb]+ad[lb]*bc[la])*
            pairxi(cw->xi00_1221[la][lb],cw->xi02_1221[la][lb],cw->xi22p_1221[la][lb],
                   cw->xi22m_1221[la][lb],na,nd,ia,i,id,l,nb,nc,ib,j,ic,k);
        }
      }
    }
  }
  return s;
}

int P_cov(nmt_covar_workspace *cw,nmt_workspace *wa,nmt_workspace *wb,int sa,int sb,int sc,int sd,
          int i,int j)
{
  int na=sa ? 2 : 1,nb=sb ? 2 : 1,nc=sc ? 2 : 1,nd=sd ? 2 : 1;
  return (cw->lmax>=wa->bin->ell_max) && (cw->lmax>=wb->bin->ell_max) && (i>=0) && (j>=0) &&
    (i<na*nb*wa->bin->n_bands) && (j<nc*nd*wb->bin->n_bands) && (wa->bin->n_bands>0) &&
    (wb->bin->n_bands>0);
}
double L_cov(nmt_covar_workspace *cw,nmt_workspace *wa,nmt_workspace *wb,
             double **clac,double **clad,double **clbc,double **clbd,double *out,
             int spin0,int sa,int sb,int sc,int sd,int i,int j)
{
  sizes(wa,wb,sa,sb,sc,sd);
  cw->spin0_only=spin0;
  nmt_compute_gaussian_covariance(cw,sa,sb,sc,sd,wa,wb,clac,clad,clbc,clbd,out);
  return out[i*(wb->ncls*wb->bin->n_bands)+j];
}
double R_cov(nmt_covar_workspace *cw,nmt_workspace *wa,nmt_workspace *wb,
             double **clac,double **clad,double **clbc,double **clbd,double *out,
             int spin0,int sa,int sb,int sc,int sd,int i,int j)
{
  int na=sa ? 2 : 1,nb=sb ? 2 : 1,nc=sc ? 2 : 1,nd=sd ? 2 : 1;
  int ba,bb,ia,ib,ic,id,x,y;
  double s=0;
  int sza=na*nb*wa->bin->n_bands,szb=nc*nd*wb->bin->n_bands;
  gsl_matrix *ma=gsl_matrix_alloc(sza,sza),*mb=gsl_matrix_alloc(szb,szb);
  gsl_linalg_LU_invert(wa->coupling_matrix_binned,wa->coupling_matrix_perm,ma);
  gsl_linalg_LU_invert(wb->coupling_matrix_binned,wb->coupling_matrix_perm,mb);
  for(ba=0;ba<wa->bin->n_bands;ba++) {
    for(bb=0;bb<wb->bin->n_bands;bb++) {
      for(ia=0;ia<na;ia++) {
        for(ib=0;ib<nb;ib++) {
          for(ic=0;ic<nc;ic++) {
            for(id=0;id<nd;id++) {
              double c=0;
              for(x=0;x<wa->bin->nell_list[ba];x++) {
                for(y=0;y<wb->bin->nell_list[bb];y++) {
                  c+=wa->bin->w_list[ba][x]*wa->bin->f_ell[ba][x]*
                    wb->bin->w_list[bb][y]*wb->bin->f_ell[bb][y]*
                    wick(cw,sa,sb,sc,sd,clac,clad,clbc,clbd,wa->bin->ell_list[ba][x],
                         wb->bin->ell_list[bb][y],ia,ib,ic,id);
                }
              }
              s+=gsl_matrix_get(ma,i,na*nb*ba+nb*ia+ib)*c*gsl_matrix_get(mb,j,nc*nd*bb+nd*ic+id);
            }
          }
        }
      }
    }
  }
  return s;
}

/* Unbinned covariance: element (la,ia,ib),(lb,ic,id); multipoles outside the bandpowers are zero */
int P_cov_c(nmt_covar_workspace *cw,nmt_workspace *wa,nmt_workspace *wb,int la0,int la1,int lb0,int lb1,
            int la,int lb)
{
  return (cw->lmax>=wa->bin->ell_max) && (cw->lmax>=wb->bin->ell_max) &&
    (la0<la1) && (lb0<lb1) && (la0>=0) && (lb0>=0) && (la>=0) && (lb>=0) &&
    (la1<=wa->bin->ell_max) && (lb1<=wb->bin->ell_max) && (la<=cw->lmax) && (lb<=cw->lmax);
}
double *S_cov_c(nmt_covar_workspace *cw,nmt_workspace *wa,nmt_workspace *wb,
             double **clac,double **clad,double **clbc,double **clbd,double *out,
             int la0,int la1,int lb0,int lb1,int sa,int sb,int sc,int sd)
{
  sizes(wa,wb,sa,sb,sc,sd);
  cw->spin0_only=0;
  wa->bin->n_bands=2; wa->bin->nell_list[0]=wa->bin->nell_list[1]=1;
  wb->bin->n_bands=1; wb->bin->nell_list[0]=2;
  wa->bin->ell_list[0][0]=la0; wa->bin->ell_list[1][0]=la1;
  wb->bin->ell_list[0][0]=lb0; wb->bin->ell_list[0][1]=lb1;
  nmt_compute_gaussian_covariance_coupled(cw,sa,sb,sc,sd,wa,wb,clac,clad,clbc,clbd,out);
  return out;
}
double V_cov_c(double *out,nmt_covar_workspace *cw,nmt_workspace *wa,nmt_workspace *wb,
               int la,int lb,int a,int b)
{
  return out[((wa->ncls*la+a)*(cw->lmax+1)+lb)*wb->ncls+b];
}
double R_cov_c(nmt_covar_workspace *cw,nmt_workspace *wa,nmt_workspace *wb,
             double **clac,double **clad,double **clbc,double **clbd,double *out,
             int la0,int la1,int lb0,int lb1,int sa,int sb,int sc,int sd,int la,int lb,int a,int b)
{
  int nb=sb ? 2 : 1,nd=sd ? 2 : 1;
  double f=1;
  if(la==la0)
    f*=wa->bin->f_ell[0][0];
  else if(la==la1)
    f*=wa->bin->f_ell[1][0];
  else
    return 0;
  if(lb==lb0)
    f*=wb->bin->f_ell[0][0];
  else if(lb==lb1)
    f*=wb->bin->f_ell[0][1];
  else
    return 0;
  return f*wick(cw,sa,sb,sc,sd,clac,clad,clbc,clbd,la,lb,a/nb,a%nb,b/nd,b%nd);
}

/* Flat sky: bandpowers of the spectra instead of the spectra */
int P_cov_flat(nmt_covar_workspace_flat *cw,nmt_workspace_flat *wa,nmt_workspace_flat *wb,
               int sa,int sb,int sc,int sd,int i,int j)
{
  int na=sa ? 2 : 1,nb=sb ? 2 : 1,nc=sc ? 2 : 1,nd=sd ? 2 : 1;
  return (cw->bin->n_bands>0) && (i>=0) && (j>=0) &&
    (i<na*nb*cw->bin->n_bands) && (j<nc*nd*cw->bin->n_bands);
}
double L_cov_flat(nmt_covar_workspace_flat *cw,nmt_workspace_flat *wa,nmt_workspace_flat *wb,
             int nl,double *larr,double **clac,double **clad,double **clbc,double **clbd,double *out,
             int sa,int sb,int sc,int sd,int i,int j)
{
  wa->ncls=(sa ? 2 : 1)*(sb ? 2 : 1);
  wb->ncls=(sc ? 2 : 1)*(sd ? 2 : 1);
  wa->bin->n_bands=cw->bin->n_bands;
  wb->bin->n_bands=cw->bin->n_bands;
  nmt_compute_gaussian_covariance_flat(cw,sa,sb,sc,sd,wa,wb,nl,larr,clac,clad,clbc,clbd,out);
  return out[i*(wb->ncls*cw->bin->n_bands)+j];
}
static double **binned(nmt_covar_workspace_flat *cw,int nl,double *larr,double **cl,int n)
{
  int i;
  double **c=my_malloc(n*sizeof(double *));
  for(i=0;i<n;i++)
    c[i]=my_malloc(cw->bin->n_bands*sizeof(double));
  nmt_bin_cls_flat(cw->bin,nl,larr,cl,c,n);
  return c;
}
double R_cov_flat(nmt_covar_workspace_flat *cw,nmt_workspace_flat *wa,nmt_workspace_flat *wb,
             int nl,double *larr,double **clac,double **clad,double **clbc,double **clbd,double *out,
             int sa,int sb,int sc,int sd,int i,int j)
{
  int na=sa ? 2 : 1,nb=sb ? 2 : 1,nc=sc ? 2 : 1,nd=sd ? 2 : 1,n=cw->bin->n_bands;
  int ba,bb,ia,ib,ic,id,ip,jp,kp,lp;
  double s=0;
  double **bac=binned(cw,nl,larr,clac,na*nc);
  double **bad=binned(cw,nl,larr,clad,na*nd);
  double **bbc=binned(cw,nl,larr,clbc,nb*nc);
  double **bbd=binned(cw,nl,larr,clbd,nb*nd);
  gsl_matrix *ma=gsl_matrix_alloc(na*nb*n,na*nb*n),*mb=gsl_matrix_alloc(nc*nd*n,nc*nd*n);
  gsl_linalg_LU_invert(wa->coupling_matrix_binned_gsl,wa->coupling_matrix_perm,ma);
  gsl_linalg_LU_invert(wb->coupling_matrix_binned_gsl,wb->coupling_matrix_perm,mb);
  for(ba=0;ba<n;ba++) {
    for(bb=0;bb<n;bb++) {
      for(ia=0;ia<na;ia++) {
        for(ib=0;ib<nb;ib++) {
          for(ic=0;ic<nc;ic++) {
            for(id=0;id<nd;id++) {
              double c=0;
              for(ip=0;ip<na;ip++) {
                for(jp=0;jp<nb;jp++) {
                  for(kp=0;kp<nc;kp++) {
                    for(lp=0;lp<nd;lp++) {
                      double *ac=bac[ip*nc+kp],*bd=bbd[jp*nd+lp],*ad=bad[ip*nd+lp],*bc=bbc[jp*nc+kp];
                      c+=0.5*(ac[ba]*bd[bb]+ac[bb]*bd[ba])*
                        pairxi(cw->xi00_1122[ba][bb],cw->xi02_1122[ba][bb],cw->xi22p_1122[ba][bb],
                               cw->xi22m_1122[ba][bb],na,nc,ia,ip,ic,kp,nb,nd,ib,jp,id,lp);
                      c+=0.5*(ad[ba]*bc[bb]+ad[bb]*bc[ba])*
                        pairxi(cw->xi00_1221[ba][bb],cw->xi02_1221[ba][bb],cw->xi22p_1221[ba][bb],
                               cw->xi22m_1221[ba][bb],na,nd,ia,ip,id,lp,nb,nc,ib,jp,ic,kp);
                    }
                  }
                }
              }
              s+=gsl_matrix_get(ma,i,na*nb*ba+nb*ia+ib)*c*gsl_matrix_get(mb,j,nc*nd*bb+nd*ic+id);
            }
          }
        }
      }
    }
  }
  return s;
}
