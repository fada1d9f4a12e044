/* Reference formulas for the mode-coupling workspace.  Never compiled into
   anything and never run: parsed and compared with /repo's functions. */
#include "config.h"
#include "utils.h"

/* The value the binned matrix must have before it is factorised. */
static double ref_binned(nmt_workspace *w,int a,int b,int i,int j)
{
  double r=0;
  int x,y;
  if(w->norm_type==0) {
    for(x=0;x<w->bin->nell_list[i];x++) {
      for(y=0;y<w->bin->nell_list[j];y++) {
        r+=w->bin->w_list[i][x]*w->bin->f_ell[i][x]*
          w->coupling_matrix_unbinned[w->ncls*w->bin->ell_list[i][x]+a][w->ncls*w->bin->ell_list[j][y]+b]*
          w->beam_prod[w->bin->ell_list[j][y]]/w->bin->f_ell[j][y];
      }
    }
  }
  else {
    if((i==j) && (a==b))
      r=w->w2;
  }
  return r;
}

int P_binned(nmt_workspace *w,int a,int b,int i,int j)
{
  return (a>=0) && (a<w->ncls) && (b>=0) && (b<w->ncls) &&
    (i>=0) && (i<w->bin->n_bands) && (j>=0) && (j<w->bin->n_bands);
}

/* update_coupling_matrix */
double L_upd_mcm_binned(nmt_workspace *w,double *m,int a,int b,int i,int j)
{
  nmt_update_coupling_matrix(w,w->ncls*(w->lmax+1),m);
  return gsl_matrix_get(w->coupling_matrix_binned,w->ncls*i+a,w->ncls*j+b);
}
double R_upd_mcm_binned(nmt_workspace *w,double *m,int a,int b,int i,int j)
{
  double r=0;
  int x,y;
  if(w->norm_type==0) {
    for(x=0;x<w->bin->nell_list[i];x++) {
      for(y=0;y<w->bin->nell_list[j];y++) {
        r+=w->bin->w_list[i][x]*w->bin->f_ell[i][x]*
          m[(w->ncls*w->bin->ell_list[i][x]+a)*w->ncls*(w->lmax+1)+w->ncls*w->bin->ell_list[j][y]+b]*
          w->beam_prod[w->bin->ell_list[j][y]]/w->bin->f_ell[j][y];
      }
    }
  }
  else {
    if((i==j) && (a==b))
      r=w->w2;
  }
  return r;
}

/* update_beams */
double L_upd_beams(nmt_workspace *w,int nl1,int nl2,double *b1,double *b2,int a,int b,int i,int j)
{
  nmt_workspace_update_beams(w,nl1,b1,nl2,b2);
  return gsl_matrix_get(w->coupling_matrix_binned,w->ncls*i+a,w->ncls*j+b);
}
double R_upd_beams(nmt_workspace *w,int nl1,int nl2,double *b1,double *b2,int a,int b,int i,int j)
{
  double r=0;
  int x,y;
  if(w->norm_type==0) {
    for(x=0;x<w->bin->nell_list[i];x++) {
      for(y=0;y<w->bin->nell_list[j];y++) {
        r+=w->bin->w_list[i][x]*w->bin->f_ell[i][x]*
          w->coupling_matrix_unbinned[w->ncls*w->bin->ell_list[i][x]+a][w->ncls*w->bin->ell_list[j][y]+b]*
          b1[w->bin->ell_list[j][y]]*b2[w->bin->ell_list[j][y]]/w->bin->f_ell[j][y];
      }
    }
  }
  else {
    if((i==j) && (a==b))
      r=w->w2;
  }
  return r;
}
int P_upd_beams(nmt_workspace *w,int nl1,int nl2,int a,int b,int i,int j)
{
  return (nl1>w->lmax_fields) && (nl2>w->lmax_fields) && P_binned(w,a,b,i,j) && (w->lmax<=w->lmax_fields);
}
/* the beams that couple_cell uses follow the update as well */
double L_upd_beams_prod(nmt_workspace *w,int nl1,int nl2,double *b1,double *b2,int l)
{
  nmt_workspace_update_beams(w,nl1,b1,nl2,b2);
  return w->beam_prod[l];
}
double R_upd_beams_prod(nmt_workspace *w,int nl1,int nl2,double *b1,double *b2,int l)
{
  return b1[l]*b2[l];
}
int P_upd_beams_prod(nmt_workspace *w,int nl1,int nl2,int l)
{
  return (nl1>w->lmax_fields) && (nl2>w->lmax_fields) && (l>=0) && (l<=w->lmax_fields);
}

/* update_binning */
double L_upd_bins(nmt_workspace *w,nmt_binning_scheme *bin,int a,int b,int i,int j)
{
  nmt_workspace_update_binning(w,bin);
  return gsl_matrix_get(w->coupling_matrix_binned,w->ncls*i+a,w->ncls*j+b);
}
double R_upd_bins(nmt_workspace *w,nmt_binning_scheme *bin,int a,int b,int i,int j)
{
  double r=0;
  int x,y;
  if(w->norm_type==0) {
    for(x=0;x<bin->nell_list[i];x++) {
      for(y=0;y<bin->nell_list[j];y++) {
        r+=bin->w_list[i][x]*bin->f_ell[i][x]*
          w->coupling_matrix_unbinned[w->ncls*bin->ell_list[i][x]+a][w->ncls*bin->ell_list[j][y]+b]*
          w->beam_prod[bin->ell_list[j][y]]/bin->f_ell[j][y];
      }
    }
  }
  else {
    if((i==j) && (a==b))
      r=w->w2;
  }
  return r;
}
int P_upd_bins(nmt_workspace *w,nmt_binning_scheme *bin,int a,int b,int i,int j)
{
  return (bin->ell_max==w->bin->ell_max) && (a>=0) && (a<w->ncls) && (b>=0) && (b<w->ncls) &&
    (i>=0) && (i<bin->n_bands) && (j>=0) && (j<bin->n_bands);
}
/* ... which leaves a private copy of the bins behind (k: 0 multipole, 1 weight, 2 prefactor, 3 sizes) */
double L_upd_bins_copy(nmt_workspace *w,nmt_binning_scheme *bin,int k,int i,int x)
{
  nmt_workspace_update_binning(w,bin);
  if(k==0) return w->bin->ell_list[i][x];
  if(k==1) return w->bin->w_list[i][x];
  if(k==2) return w->bin->f_ell[i][x];
  if(k==3) return w->bin->nell_list[i];
  if(k==4) return w->bin->ell_max;
  return w->bin->n_bands;
}
double R_upd_bins_copy(nmt_workspace *w,nmt_binning_scheme *bin,int k,int i,int x)
{
  if(k==0) return bin->ell_list[i][x];
  if(k==1) return bin->w_list[i][x];
  if(k==2) return bin->f_ell[i][x];
  if(k==3) return bin->nell_list[i];
  if(k==4) return bin->ell_max;
  return bin->n_bands;
}
int P_upd_bins_copy(nmt_workspace *w,nmt_binning_scheme *bin,int i,int x)
{
  return (bin->ell_max==w->bin->ell_max) && (i>=0) && (i<bin->n_bands) && (x>=0) && (x<bin->nell_list[i]);
}

/* the unbinned matrix after it was replaced: row n*l+a, column n*m+b */
double L_upd_mcm_unbinned(nmt_workspace *w,double *m,int r,int s)
{
  nmt_update_coupling_matrix(w,w->ncls*(w->lmax+1),m);
  return w->coupling_matrix_unbinned[r][s];
}
double R_upd_mcm_unbinned(nmt_workspace *w,double *m,int r,int s)
{
  return m[(long)r*w->ncls*(w->lmax+1)+s];
}
int P_upd_mcm_unbinned(nmt_workspace *w,int r,int s)
{
  return (r>=0) && (s>=0) && (r<w->ncls*(w->lmax+1)) && (s<w->ncls*(w->lmax+1));
}

/* couple_cell */
double L_couple(nmt_workspace *w,double **cl,double **out,int a,int l)
{
  nmt_couple_cl_l(w,cl,out);
  return out[a][l];
}
double R_couple(nmt_workspace *w,double **cl,double **out,int a,int l)
{
  double r=0;
  int b,m;
  for(m=0;m<=w->lmax;m++) {
    for(b=0;b<w->ncls;b++)
      r+=w->coupling_matrix_unbinned[w->ncls*l+a][w->ncls*m+b]*w->beam_prod[m]*cl[b][m];
  }
  return r;
}
int P_couple(nmt_workspace *w,int a,int l)
{
  return (a>=0) && (a<w->ncls) && (l>=0) && (l<=w->lmax);
}

/* decouple_cell: inverse of the binned matrix times the binned, debiased spectra */
static double inverse_binned(nmt_workspace *w,int r,int s)
{
  int n=w->ncls*w->bin->n_bands;
  gsl_matrix *m=gsl_matrix_alloc(n,n);
  gsl_linalg_LU_invert(w->coupling_matrix_binned,w->coupling_matrix_perm,m);
  return gsl_matrix_get(m,r,s);
}
double L_decouple(nmt_workspace *w,double **cl,double **noise,double **bias,double **out,int a,int i)
{
  nmt_decouple_cl_l(w,cl,noise,bias,out);
  return out[a][i];
}
double R_decouple(nmt_workspace *w,double **cl,double **noise,double **bias,double **out,int a,int i)
{
  double r=0;
  int b,j,x,l;
  for(j=0;j<w->bin->n_bands;j++) {
    for(b=0;b<w->ncls;b++) {
      double d=0;
      for(x=0;x<w->bin->nell_list[j];x++) {
        l=w->bin->ell_list[j][x];
        d+=w->bin->w_list[j][x]*w->bin->f_ell[j][x]*(cl[b][l]-noise[b][l]-bias[b][l]);
      }
      r+=inverse_binned(w,w->ncls*i+a,w->ncls*j+b)*d;
    }
  }
  return r;
}
int P_decouple(nmt_workspace *w,int a,int i)
{
  return (a>=0) && (a<w->ncls) && (i>=0) && (i<w->bin->n_bands);
}

/* bandpower windows: inverse binned matrix times the binned rows of the coupling matrix */
double L_bpw(nmt_workspace *w,double *out,int a,int i,int b,int l)
{
  nmt_compute_bandpower_windows(w,out);
  return out[((w->ncls*i+a)*w->ncls*(w->lmax+1))+w->ncls*l+b];
}
double R_bpw(nmt_workspace *w,double *out,int a,int i,int b,int l)
{
  double r=0;
  int c,j,x;
  for(j=0;j<w->bin->n_bands;j++) {
    for(c=0;c<w->ncls;c++) {
      double d=0;
      for(x=0;x<w->bin->nell_list[j];x++)
        d+=w->bin->w_list[j][x]*w->bin->f_ell[j][x]*
          w->coupling_matrix_unbinned[w->ncls*w->bin->ell_list[j][x]+c][w->ncls*l+b];
      r+=inverse_binned(w,w->ncls*i+a,w->ncls*j+c)*d*w->beam_prod[l];
    }
  }
  return r;
}
int P_bpw(nmt_workspace *w,int a,int i,int b,int l)
{
  return (a>=0) && (a<w->ncls) && (i>=0) && (i<w->bin->n_bands) && (b>=0) && (b<w->ncls) && (l>=0) && (l<=w->lmax);
}

/* accessors used by the typestate rule */
void *G_binned(nmt_workspace *w) { return w->coupling_matrix_binned; }
void *G_perm(nmt_workspace *w) { return w->coupling_matrix_perm; }
void *G_binned_flat(nmt_workspace_flat *w) { return w->coupling_matrix_binned_gsl; }
void *G_perm_flat(nmt_workspace_flat *w) { return w->coupling_matrix_perm; }

/* read back from the state a function leaves behind */
double V_binned(nmt_workspace *w,int a,int b,int i,int j)
{
  return gsl_matrix_get(w->coupling_matrix_binned,w->ncls*i+a,w->ncls*j+b);
}
double W_binned(nmt_workspace *w,int a,int b,int i,int j)
{
  return ref_binned(w,a,b,i,j);
}
nmt_workspace *S_mcm_binned(int spin1,int spin2,int lmax,int lmax_mask,int pe1,int pb1,int pe2,int pb2,
                     double *pcl,double *b1,double *b2,nmt_binning_scheme *bin,int is_teb,
                     int norm_type,double w2)
{
  return nmt_compute_coupling_matrix(spin1,spin2,lmax,lmax_mask,pe1,pb1,pe2,pb2,pcl,b1,b2,
                                     bin,is_teb,-1,-1,-1,norm_type,w2);
}
double V_mcm_binned(nmt_workspace *w,int a,int b,int i,int j) { return V_binned(w,a,b,i,j); }
double W_mcm_binned(nmt_workspace *w,int a,int b,int i,int j) { return W_binned(w,a,b,i,j); }
int P_mcm_binned(nmt_binning_scheme *bin,int lmax,int a,int b,int i,int j)
{
  return (bin->ell_max<=lmax) && (i>=0) && (i<bin->n_bands) && (j>=0) && (j<bin->n_bands);
}
double V_mcm_scalars(nmt_workspace *w,int k,int l)
{
  if(k==0) return w->beam_prod[l];
  if(k==1) return w->pcl_masks[l];
  if(k==2) return w->norm_type;
  if(k==3) return w->w2;
  if(k==4) return w->lmax;
  if(k==5) return w->lmax_fields;
  if(k==6) return w->lmax_mask;
  if(k==7) return w->is_teb;
  if(k==8) return w->ncls;
  return 0;
}
nmt_workspace *S_mcm_scalars(int spin1,int spin2,int lmax,int lmax_mask,int pe1,int pb1,int pe2,int pb2,
                     double *pcl,double *b1,double *b2,nmt_binning_scheme *bin,int is_teb,
                     int norm_type,double w2)
{
  return nmt_compute_coupling_matrix(spin1,spin2,lmax,lmax_mask,pe1,pb1,pe2,pb2,pcl,b1,b2,
                                     bin,is_teb,-1,-1,-1,norm_type,w2);
}
double R_mcm_scalars(int spin1,int spin2,int lmax,int lmax_mask,double *pcl,double *b1,double *b2,
                     nmt_binning_scheme *bin,int is_teb,int norm_type,double w2,int k,int l)
{
  if(k==0) return b1[l]*b2[l];
  if(k==1) return pcl[l]*(2*l+1)/(4*M_PI);
  if(k==2) return norm_type;
  if(k==3) return w2;
  if(k==4) return bin->ell_max;
  if(k==5) return lmax;
  if(k==6) return lmax_mask;
  if(k==7) return is_teb;
  if(k==8) return is_teb ? 7 : (spin1 ? 2 : 1)*(spin2 ? 2 : 1);
  return 0;
}
int P_mcm_scalars(nmt_binning_scheme *bin,int lmax,int lmax_mask,int l)
{
  return (bin->ell_max<=lmax) && (l>=0) && (l<=lmax) && (l<=lmax_mask);
}
