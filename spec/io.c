/* What a workspace file must restore.  S_x writes and reads a workspace, V_x picks a member of
   the restored one, R_x the same member of the original.  Parsed only. */
#include "config.h"
#include "utils.h"

/* ---- curved-sky workspace ---- */
nmt_workspace *S_io_ws(nmt_workspace *w,char *f,int un)
{
  nmt_workspace_write_fits(w,f);
  return nmt_workspace_read_fits(f,un);
}
static double ws_member(nmt_workspace *w,int k,int i,int j)
{
  if(k==0) return w->lmax;
  if(k==1) return w->lmax_fields;
  if(k==2) return w->lmax_mask;
  if(k==3) return w->is_teb;
  if(k==4) return w->ncls;
  if(k==5) return w->norm_type;
  if(k==6) return w->w2;
  if(k==7) return w->beam_prod[i];
  if(k==8) return w->pcl_masks[i];
  if(k==9) return w->coupling_matrix_unbinned[i][j];
  if(k==10) return gsl_matrix_get(w->coupling_matrix_binned,i,j);
  return w->coupling_matrix_perm->data[i];
}
int P_io_ws(nmt_workspace *w,int un,int k,int i,int j)
{
  return (w->lmax>=0) && (w->lmax_fields>=0) && (w->lmax_mask>=0) && (w->ncls>0) &&
    (w->bin->n_bands>0) && (i>=0) && (j>=0) &&
    ((k!=7) || (i<=w->lmax_fields)) && ((k!=8) || (i<=w->lmax_mask)) &&
    ((k!=9) || ((i<w->ncls*(w->lmax+1)) && (j<w->ncls*(w->lmax+1)))) &&
    ((k<10) || ((i<w->ncls*w->bin->n_bands) && (j<w->ncls*w->bin->n_bands)));
}
double V_io_ws(nmt_workspace *r,nmt_workspace *w,int k,int i,int j) { return ws_member(r,k,i,j); }
double W_io_ws(nmt_workspace *r,nmt_workspace *w,int k,int i,int j) { return ws_member(w,k,i,j); }

/* ---- bandpowers, for given lists of multipoles: the shape is fixed, weights are free ---- */
static void shape(nmt_binning_scheme *b,int sh)
{
  if(sh==0) { /* contiguous */
    b->ell_max=5; b->n_bands=2;
    b->nell_list[0]=2; b->nell_list[1]=2;
    b->ell_list[0][0]=2; b->ell_list[0][1]=3;
    b->ell_list[1][0]=4; b->ell_list[1][1]=5;
  }
  if(sh==1) { /* interleaved, first multipoles unused, last band short */
    b->ell_max=6; b->n_bands=3;
    b->nell_list[0]=2; b->nell_list[1]=2; b->nell_list[2]=1;
    b->ell_list[0][0]=1; b->ell_list[0][1]=4;
    b->ell_list[1][0]=2; b->ell_list[1][1]=5;
    b->ell_list[2][0]=3;
  }
  if(sh==2) { /* a multipole in two bandpowers */
    b->ell_max=4; b->n_bands=2;
    b->nell_list[0]=2; b->nell_list[1]=2;
    b->ell_list[0][0]=2; b->ell_list[0][1]=3;
    b->ell_list[1][0]=3; b->ell_list[1][1]=4;
  }
  if(sh==3) { /* multipoles in descending order */
    b->ell_max=4; b->n_bands=2;
    b->nell_list[0]=1; b->nell_list[1]=2;
    b->ell_list[0][0]=4;
    b->ell_list[1][0]=3; b->ell_list[1][1]=1;
  }
  int i;
  for(i=0;i<b->n_bands;i++) { /* weights are normalised */
    if(b->nell_list[i]==1) b->w_list[i][0]=1;
    if(b->nell_list[i]==2) b->w_list[i][1]=1-b->w_list[i][0];
  }
}
nmt_workspace *S_io_bins(nmt_workspace *w,char *f,int sh)
{
  shape(w->bin,sh);
  nmt_workspace_write_fits(w,f);
  return nmt_workspace_read_fits(f,0);
}
static double bin_member(nmt_binning_scheme *b,int q,int i,int j)
{
  if(q==0) return b->n_bands;
  if(q==1) return b->ell_max;
  if(q==2) return b->nell_list[i];
  if(q==3) return b->ell_list[i][j];
  if(q==4) return b->w_list[i][j];
  return b->f_ell[i][j];
}
int P_io_bins(nmt_workspace *w)
{
  int i,j,r=1;
  for(i=0;i<3;i++) {
    for(j=0;j<2;j++)
      r=r && (w->bin->f_ell[i][j]>0) && (w->bin->w_list[i][j]>0) && (w->bin->w_list[i][j]<1);
  }
  return r;
}
double V_io_bins(nmt_workspace *r,nmt_workspace *w,int q,int i,int j) { return bin_member(r->bin,q,i,j); }
double W_io_bins(nmt_workspace *r,nmt_workspace *w,int q,int i,int j) { return bin_member(w->bin,q,i,j); }

/* ---- flat-sky workspace ---- */
nmt_workspace_flat *S_io_wsf(nmt_workspace_flat *w,char *f)
{
  nmt_workspace_flat_write_fits(w,f);
  return nmt_workspace_flat_read_fits(f);
}
static double wsf_member(nmt_workspace_flat *w,int k,int i,int j)
{
  if(k==0) return w->ncls;
  if(k==1) return w->is_teb;
  if(k==2) return w->pe1;
  if(k==3) return w->pe2;
  if(k==4) return w->pb1;
  if(k==5) return w->pb2;
  if(k==6) return w->lmax;
  if(k==7) return w->ellcut_x[0];
  if(k==8) return w->ellcut_x[1];
  if(k==9) return w->ellcut_y[0];
  if(k==10) return w->ellcut_y[1];
  if(k==11) return w->bin->n_bands;
  if(k==12) return w->bin->ell_0_list[i];
  if(k==13) return w->bin->ell_f_list[i];
  if(k==14) return w->fs->nx;
  if(k==15) return w->fs->ny;
  if(k==16) return w->fs->npix;
  if(k==17) return w->fs->lx;
  if(k==18) return w->fs->ly;
  if(k==19) return w->fs->pixsize;
  if(k==20) return w->fs->n_ell;
  if(k==21) return w->fs->i_dell;
  if(k==22) return w->fs->dell;
  if(k==23) return w->fs->ell_min[i];
  if(k==24) return w->n_cells[i];
  if(k==25) return w->coupling_matrix_unbinned[i][j];
  if(k==26) return w->coupling_matrix_binned[i][j];
  if(k==27) return gsl_matrix_get(w->coupling_matrix_binned_gsl,i,j);
  return w->coupling_matrix_perm->data[i];
}
int P_io_wsf(nmt_workspace_flat *w,int k,int i,int j)
{
  int nb=w->ncls*w->bin->n_bands;
  return (w->ncls>0) && (w->bin->n_bands>0) && (w->fs->n_ell>0) && (i>=0) && (j>=0) &&
    (((k!=12) && (k!=13) && (k!=24)) || (i<w->bin->n_bands)) &&
    ((k!=23) || (i<w->fs->n_ell)) &&
    ((k!=25) || ((i<nb) && (j<w->ncls*w->fs->n_ell))) && ((k<26) || ((i<nb) && (j<nb)));
}
double V_io_wsf(nmt_workspace_flat *r,nmt_workspace_flat *w,int k,int i,int j)
{ return wsf_member(r,k,i,j); }
double W_io_wsf(nmt_workspace_flat *r,nmt_workspace_flat *w,int k,int i,int j)
{ return wsf_member(w,k,i,j); }

/* ---- covariance workspaces ---- */
nmt_covar_workspace *S_io_cw(nmt_covar_workspace *w,char *f,int spin0)
{
  nmt_covar_workspace_write_fits(w,f);
  return nmt_covar_workspace_read_fits(f,0);
}
static double cw_member(nmt_covar_workspace *w,int k,int i,int j)
{
  if(k==0) return w->lmax;
  if(k==1) return w->lmax_mask;
  if(k==2) return w->spin0_only;
  if(k==3) return w->xi00_1122[i][j];
  if(k==4) return w->xi00_1221[i][j];
  if(k==5) return w->xi02_1122[i][j];
  if(k==6) return w->xi02_1221[i][j];
  if(k==7) return w->xi22p_1122[i][j];
  if(k==8) return w->xi22p_1221[i][j];
  if(k==9) return w->xi22m_1122[i][j];
  return w->xi22m_1221[i][j];
}
int P_io_cw(nmt_covar_workspace *w,int spin0,int k,int i,int j)
{
  return (w->lmax>=0) && (w->lmax_mask>=w->lmax) && (i>=0) && (i<=w->lmax) && (j>=0) && (j<=w->lmax) &&
    (w->spin0_only==spin0) && ((spin0==0) || (k<5));
}
double V_io_cw(nmt_covar_workspace *r,nmt_covar_workspace *w,int k,int i,int j)
{ return cw_member(r,k,i,j); }
double W_io_cw(nmt_covar_workspace *r,nmt_covar_workspace *w,int k,int i,int j)
{ return cw_member(w,k,i,j); }

/* reading only the spin-0 coefficients: the rest are the spin-0 ones */
nmt_covar_workspace *S_io_cw0(nmt_covar_workspace *w,char *f)
{
  nmt_covar_workspace_write_fits(w,f);
  return nmt_covar_workspace_read_fits(f,1);
}
int P_io_cw0(nmt_covar_workspace *w,int k,int i,int j)
{
  return (w->lmax>=0) && (w->lmax_mask>=w->lmax) && (i>=0) && (i<=w->lmax) && (j>=0) && (j<=w->lmax);
}
double V_io_cw0(nmt_covar_workspace *r,nmt_covar_workspace *w,int k,int i,int j)
{ return cw_member(r,k,i,j); }
double W_io_cw0(nmt_covar_workspace *r,nmt_covar_workspace *w,int k,int i,int j)
{
  if(k==2) return 1;
  if(k<3) return cw_member(w,k,i,j);
  if((k==3) || (k==5) || (k==7) || (k==9)) return w->xi00_1122[i][j];
  return w->xi00_1221[i][j];
}

/* flat-sky covariance workspace */
nmt_covar_workspace_flat *S_io_cwf(nmt_covar_workspace_flat *w,char *f)
{
  nmt_covar_workspace_flat_write_fits(w,f);
  return nmt_covar_workspace_flat_read_fits(f);
}
static double cwf_member(nmt_covar_workspace_flat *w,int k,int i,int j)
{
  if(k==0) return w->bin->n_bands;
  if(k==1) return w->bin->ell_0_list[i];
  if(k==2) return w->bin->ell_f_list[i];
  if(k==3) return w->xi00_1122[i][j];
  if(k==4) return w->xi00_1221[i][j];
  if(k==5) return w->xi02_1122[i][j];
  if(k==6) return w->xi02_1221[i][j];
  if(k==7) return w->xi22p_1122[i][j];
  if(k==8) return w->xi22p_1221[i][j];
  if(k==9) return w->xi22m_1122[i][j];
  return w->xi22m_1221[i][j];
}
int P_io_cwf(nmt_covar_workspace_flat *w,int k,int i,int j)
{
  return (w->bin->n_bands>0) && (i>=0) && (i<w->bin->n_bands) && (j>=0) && (j<w->bin->n_bands);
}
double V_io_cwf(nmt_covar_workspace_flat *r,nmt_covar_workspace_flat *w,int k,int i,int j)
{ return cwf_member(r,k,i,j); }
double W_io_cwf(nmt_covar_workspace_flat *r,nmt_covar_workspace_flat *w,int k,int i,int j)
{ return cwf_member(w,k,i,j); }
