/* Complete lives of native objects, as the Python layer drives them: inputs of the sizes the Python
   layer guarantees, one object of each kind created, used and released. Every block obtained in
   between has to be released, and every access has to stay inside its block. */
#include "config.h"
#include "utils.h"

/* helpers of the wrapper */
void apomask(int npix_1, double * mask, double * ldout, long nldout, double aposize, char * apotype);
void apomask_flat(int nx, int ny, double lx, double ly, int npix_1, double * mask, double * dout, int ndout, double aposize, char * apotype);
void bin_cl(nmt_binning_scheme * bins, int ncl1, int nell1, double * cls1, double * dout, int ndout);
void bin_cl_flat(nmt_binning_scheme_flat * bins, int nell3, double * weights, int ncl1, int nell1, double * cls1, double * dout, int ndout);
nmt_binning_scheme *bins_create_py(int nell1, int * bpws, int nell2, int * ells, int nell3, double * weights, int nell4, double * f_ell, int lmax);
nmt_binning_scheme_flat *bins_flat_create_py(int npix_1, double * mask, int nell3, double * weights);
nmt_workspace *comp_coupling_matrix(int spin1, int spin2, int lmax, int lmax_mask, int pure_e_1, int pure_b_1, int pure_e_2, int pure_b_2, int norm_type, double w2, int nlb1, double * beam1, int nlb2, double * beam2, int nell4, double * f_ell, nmt_binning_scheme * bin, int is_teb, int l_toeplitz, int l_exact, int dl_band);
nmt_workspace *comp_coupling_matrix_anisotropic(int spin1, int spin2, int aniso1, int aniso2, int lmax, int lmax_mask, int nl00, double * fl00, int nl0e, double * fl0e, int nl0b, double * fl0b, int nle0, double * fle0, int nlb0, double * flb0, int nlee, double * flee, int nleb, double * fleb, int nlbe, double * flbe, int nlbb, double * flbb, int nlb1, double * beam1, int nlb2, double * beam2, nmt_binning_scheme * bin, int norm_type, double w2);
nmt_workspace_flat *comp_coupling_matrix_flat(nmt_field_flat * fl1, nmt_field_flat * fl2, nmt_binning_scheme_flat * bin, double lmn_x, double lmx_x, double lmn_y, double lmx_y, int is_teb);
void comp_deproj_bias_flat(nmt_field_flat * fl1, nmt_field_flat * fl2, nmt_binning_scheme_flat * bin, double lmn_x, double lmx_x, double lmn_y, double lmx_y, int nell3, double * weights, int ncl1, int nell1, double * cls1, double * dout, int ndout);
void comp_gaussian_covariance(nmt_covar_workspace * cw, int spin_a1, int spin_a2, int spin_b1, int spin_b2, nmt_workspace * wa, nmt_workspace * wb, int ncl11, int nell11, double * c11, int ncl12, int nell12, double * c12, int ncl21, int nell21, double * c21, int ncl22, int nell22, double * c22, double * dout, int ndout);
void comp_gaussian_covariance_coupled(nmt_covar_workspace * cw, int spin_a1, int spin_a2, int spin_b1, int spin_b2, nmt_workspace * wa, nmt_workspace * wb, int ncl11, int nell11, double * c11, int ncl12, int nell12, double * c12, int ncl21, int nell21, double * c21, int ncl22, int nell22, double * c22, double * dout, int ndout);
void comp_gaussian_covariance_flat(nmt_covar_workspace_flat * cw, int spin_a1, int spin_a2, int spin_b1, int spin_b2, nmt_workspace_flat * wa, nmt_workspace_flat * wb, int nell3, double * weights, int ncl11, int nell11, double * c11, int ncl12, int nell12, double * c12, int ncl21, int nell21, double * c21, int ncl22, int nell22, double * c22, double * dout, int ndout);
void comp_pspec_coupled_flat(nmt_field_flat * fl1, nmt_field_flat * fl2, nmt_binning_scheme_flat * bin, double * dout, int ndout, double lmn_x, double lmx_x, double lmn_y, double lmx_y);
void comp_pspec_flat(nmt_field_flat * fl1, nmt_field_flat * fl2, nmt_binning_scheme_flat * bin, nmt_workspace_flat * w0, int ncl1, int nell1, double * cls1, int nell3, double * weights, int ncl2, int nell2, double * cls2, double * dout, int ndout, double lmn_x, double lmx_x, double lmn_y, double lmx_y);
void couple_cell_py(nmt_workspace * w, int ncl1, int nell1, double * cls1, double * dout, int ndout);
void couple_cell_py_flat(nmt_workspace_flat * w, int nell3, double * weights, int ncl1, int nell1, double * cls1, double * dout, int ndout);
nmt_covar_workspace_flat *covar_workspace_flat_init_py(nmt_field_flat * fa1, nmt_field_flat * fa2, nmt_binning_scheme_flat * ba, nmt_field_flat * fb1, nmt_field_flat * fb2, nmt_binning_scheme_flat * bb);
nmt_covar_workspace *covar_workspace_init_py(int nlb1, double * beam1, int nlb2, double * beam2, int lmax, int lmax_mask, int l_toeplitz, int l_exact, int dl_band, int spin0_only);
void decouple_cell_py(nmt_workspace * w, int ncl1, int nell1, double * cls1, int ncl2, int nell2, double * cls2, int ncl3, int nell3, double * cls3, double * dout, int ndout);
void decouple_cell_py_flat(nmt_workspace_flat * w, int ncl1, int nell1, double * cls1, int ncl2, int nell2, double * cls2, int ncl3, int nell3, double * cls3, double * dout, int ndout);
nmt_field_flat *field_alloc_empty_flat(int nx, int ny, double lx, double ly, int spin, int npix_1, double * mask, int ncl1, int nell1, double * cls1, int pure_e, int pure_b);
nmt_field_flat *field_alloc_new_flat(int nx, int ny, double lx, double ly, int spin, int npix_1, double * mask, int nmap_2, int npix_2, double * mps, int ntmp_3, int nmap_3, int npix_3, double * tmp, int ncl1, int nell1, double * cls1, int pure_e, int pure_b, double tol_pinv, int masked_input, int lite);
nmt_field_flat *field_alloc_new_notemp_flat(int nx, int ny, double lx, double ly, int spin, int npix_1, double * mask, int nmap_2, int npix_2, double * mps, int ncl1, int nell1, double * cls1, int pure_e, int pure_b, int masked_input, int lite);
void get_bandpower_windows(nmt_workspace * w, double * dout, int ndout);
void get_ell_eff(nmt_binning_scheme * bins, double * dout, int ndout);
void get_ell_eff_flat(nmt_binning_scheme_flat * bins, double * dout, int ndout);
void get_ell_list(nmt_binning_scheme * bins, int ibin, int * iout, int niout);
void get_ell_sampling_flat(nmt_field_flat * f, double * dout, int ndout);
void get_map_flat(nmt_field_flat * fl, int imap, double * dout, int ndout);
void get_mask_flat(nmt_field_flat * fl, double * dout, int ndout);
void get_mcm(nmt_workspace * w, double * ldout, long nldout);
int get_nell(nmt_binning_scheme * bins, int ibin);
void get_nell_list(nmt_binning_scheme * bins, int * iout, int niout);
void get_temp_flat(nmt_field_flat * fl, int itemp, int imap, double * dout, int ndout);
void get_weight_list(nmt_binning_scheme * bins, int ibin, double * dout, int ndout);
nmt_covar_workspace *read_covar_workspace(char * fname, int force_spin0);
nmt_covar_workspace_flat *read_covar_workspace_flat(char * fname);
nmt_workspace *read_workspace(char * fname, int w_unbinned);
nmt_workspace_flat *read_workspace_flat(char * fname);
void synfast_new_flat(int nx, int ny, double lx, double ly, int nfields, int * spin_arr, int seed, int ncl1, int nell1, double * cls1, int ncl2, int nell2, double * cls2, double * dout, int ndout);
void unbin_cl(nmt_binning_scheme * bins, int ncl1, int nell1, double * cls1, double * dout, int ndout);
void unbin_cl_flat(nmt_binning_scheme_flat * bins, int ncl1, int nell1, double * cls1, int nell3, double * weights, double * dout, int ndout);
void update_mcm(nmt_workspace * w, int n_rows, int nell3, double * weights);
void write_covar_workspace(nmt_covar_workspace * cw, char * fname);
void write_covar_workspace_flat(nmt_covar_workspace_flat * cw, char * fname);
void write_workspace(nmt_workspace * w, char * fname);
void write_workspace_flat(nmt_workspace_flat * w, char * fname);
void wsp_update_beams(nmt_workspace * w, int nlb1, double * beam1, int nlb2, double * beam2);
void wsp_update_bins(nmt_workspace * w, nmt_binning_scheme * b);

/* what the caller gives holds values */
#define D(n) my_malloc((n)*sizeof(double))

/* what it takes results in does not */
static void *results(size_t n)
{
  return my_malloc(n);
}
#define OUT(n) results((n)*sizeof(double))

/* the caller reads every element of a result */
static double seen(double *x,long n)
{
  long i;
  double s=0;
  for(i=0;i<n;i++)
    s+=x[i];
  return s;
}

static int seen_i(int *x,long n)
{
  long i;
  int s=0;
  for(i=0;i<n;i++)
    s+=x[i];
  return s;
}

/* multipoles 0..lmax in bands of nlb */
static nmt_binning_scheme *bands(int nlb,int lmax)
{
  return nmt_bins_constant(nlb,lmax,0);
}

int U_bins_create(int n,int nb,int lmax,int with_f)
{
  int *bp=my_malloc(n*sizeof(int)),*el=my_malloc(n*sizeof(int));
  double *w=D(n),*f=with_f ? D(n) : NULL;
  nmt_binning_scheme *b=nmt_bins_create(n,bp,el,w,f,lmax);
  nmt_bins_free(b);
  free(bp); free(el); free(w); free(f);
  return 0;
}

int U_bins(int nlb,int lmax,int ncl,int ib)
{
  nmt_binning_scheme *b=bands(nlb,lmax);
  double *in=D(ncl*(lmax+1)),*out=OUT(ncl*b->n_bands),*up=OUT(ncl*(lmax+1)),*e=OUT(b->n_bands),*w=OUT(b->nell_list[ib]);
  int *l=results(b->nell_list[ib]*sizeof(int)),*n=results(b->n_bands*sizeof(int));
  bin_cl(b,ncl,lmax+1,in,out,ncl*b->n_bands);
  seen(out,ncl*b->n_bands);
  unbin_cl(b,ncl,b->n_bands,out,up,ncl*(lmax+1));
  seen(up,ncl*(lmax+1));
  get_ell_eff(b,e,b->n_bands);
  seen(e,b->n_bands);
  get_nell_list(b,n,b->n_bands);
  seen_i(n,b->n_bands);
  get_ell_list(b,ib,l,b->nell_list[ib]);
  seen_i(l,b->nell_list[ib]);
  get_weight_list(b,ib,w,b->nell_list[ib]);
  seen(w,b->nell_list[ib]);
  nmt_bins_free(b);
  free(in); free(out); free(up); free(e); free(w); free(l); free(n);
  return 0;
}

int U_bins_flat(int nb,int ncl,int nl)
{
  double *lo=D(nb),*hi=D(nb),*l=D(nl),*in=D(ncl*nl),*out=OUT(ncl*nb),*up=OUT(ncl*nl),*e=OUT(nb);
  nmt_binning_scheme_flat *b=bins_flat_create_py(nb,lo,nb,hi);
  bin_cl_flat(b,nl,l,ncl,nl,in,out,ncl*nb);
  seen(out,ncl*nb);
  unbin_cl_flat(b,ncl,nb,out,nl,l,up,ncl*nl);
  seen(up,ncl*nl);
  get_ell_eff_flat(b,e,nb);
  seen(e,nb);
  nmt_bins_flat_free(b);
  free(lo); free(hi); free(l); free(in); free(out); free(up); free(e);
  return 0;
}

static nmt_workspace *ws(int s1,int s2,int lmax,int lmm,int pe1,int pb1,int pe2,int pb2,int teb,int nlb,
                         nmt_binning_scheme *b)
{
  double *pcl=D(lmm+1),*b1=D(lmax+1),*b2=D(lmax+1);
  nmt_workspace *w=comp_coupling_matrix(s1,s2,lmax,lmm,pe1,pb1,pe2,pb2,0,1.,lmax+1,b1,lmax+1,b2,lmm+1,pcl,b,
                                        teb,-1,-1,-1);
  free(pcl); free(b1); free(b2);
  return w;
}

int U_ws(int s1,int s2,int lmax,int lmm,int pe1,int pb1,int pe2,int pb2,int teb,int nlb)
{
  nmt_binning_scheme *b=bands(nlb,lmax);
  nmt_workspace *w=ws(s1,s2,lmax,lmm,pe1,pb1,pe2,pb2,teb,nlb,b);
  nmt_bins_free(b);
  nmt_workspace_free(w);
  return 0;
}

int U_ws_use(int s1,int s2,int lmax,int lmm,int nlb,int nlb2)
{
  nmt_binning_scheme *b=bands(nlb,lmax),*b2=bands(nlb2,lmax);
  nmt_workspace *w=ws(s1,s2,lmax,lmm,0,0,0,0,0,nlb,b);
  int nc=(s1 ? 2 : 1)*(s2 ? 2 : 1);
  double *c=D(nc*(lmax+1)),*c2=OUT(nc*(lmax+1)),*bm=D(lmax+1),*bp,*bp2,*bp3,*win;
  long nm=((long)(nc*(lmax+1)))*(nc*(lmax+1));
  double *m=D(nm),*mo=OUT(nm);
  wsp_update_beams(w,lmax+1,bm,lmax+1,bm);
  update_mcm(w,nc*(lmax+1),nm,m);
  get_mcm(w,mo,nm);
  seen(mo,nm);
  couple_cell_py(w,nc,lmax+1,c,c2,nc*(lmax+1));
  seen(c2,nc*(lmax+1));
  bp=OUT(nc*w->bin->n_bands);
  decouple_cell_py(w,nc,lmax+1,c,nc,lmax+1,c2,nc,lmax+1,c2,bp,nc*w->bin->n_bands);
  seen(bp,nc*w->bin->n_bands);
  win=OUT(((long)(nc*w->bin->n_bands))*nc*(lmax+1));
  get_bandpower_windows(w,win,((long)(nc*w->bin->n_bands))*nc*(lmax+1));
  seen(win,((long)(nc*w->bin->n_bands))*nc*(lmax+1));
  wsp_update_bins(w,b2);
  nmt_bins_free(b); nmt_bins_free(b2);
  nmt_workspace_free(w);
  free(c); free(c2); free(bm); free(bp); free(m); free(mo); free(win);
  return 0;
}

int U_ws_aniso(int s1,int s2,int an1,int an2,int lmax,int lmm,int nlb)
{
  int i,n=lmm+1;
  nmt_binning_scheme *b=bands(nlb,lmax);
  double *f[9],*b1=D(lmax+1);
  nmt_workspace *w;
  for(i=0;i<9;i++)
    f[i]=D(n);
  w=comp_coupling_matrix_anisotropic(s1,s2,an1,an2,lmax,lmm,n,f[0],n,f[1],n,f[2],n,f[3],n,f[4],n,f[5],n,f[6],
                                     n,f[7],n,f[8],lmax+1,b1,lmax+1,b1,b,0,1.);
  for(i=0;i<9;i++)
    free(f[i]);
  free(b1);
  nmt_bins_free(b);
  nmt_workspace_free(w);
  return 0;
}

int U_covar(int sa,int sb,int sc,int sd,int lmax,int lmm,int nlb,int nlb2,int spin0)
{
  nmt_binning_scheme *ba=bands(nlb,lmax),*bb=bands(nlb2,lmax);
  nmt_workspace *wa=ws(sa,sb,lmax,lmm,0,0,0,0,0,nlb,ba),*wb=ws(sc,sd,lmax,lmm,0,0,0,0,0,nlb2,bb);
  int na=sa ? 2 : 1,nb=sb ? 2 : 1,nc=sc ? 2 : 1,nd=sd ? 2 : 1;
  long no=((long)(na*nb*wa->bin->n_bands))*(nc*nd*wb->bin->n_bands);
  double *m1=D(lmm+1),*m2=D(lmm+1);
  double *ac=D(na*nc*(lmax+1)),*ad=D(na*nd*(lmax+1)),*bc=D(nb*nc*(lmax+1)),*bd=D(nb*nd*(lmax+1)),*out=OUT(no);
  nmt_covar_workspace *cw=covar_workspace_init_py(lmm+1,m1,lmm+1,m2,lmax,lmm,-1,-1,-1,spin0);
  comp_gaussian_covariance(cw,sa,sb,sc,sd,wa,wb,na*nc,lmax+1,ac,na*nd,lmax+1,ad,nb*nc,lmax+1,bc,nb*nd,lmax+1,bd,
                           out,no);
  seen(out,no);
  nmt_covar_workspace_free(cw);
  nmt_workspace_free(wa); nmt_workspace_free(wb);
  nmt_bins_free(ba); nmt_bins_free(bb);
  free(m1); free(m2); free(ac); free(ad); free(bc); free(bd); free(out);
  return 0;
}

int U_covar_coupled(int sa,int sb,int sc,int sd,int lmax,int lmm,int nlb,int nlb2,int spin0)
{
  nmt_binning_scheme *ba=bands(nlb,lmax),*bb=bands(nlb2,lmax);
  nmt_workspace *wa=ws(sa,sb,lmax,lmm,0,0,0,0,0,nlb,ba),*wb=ws(sc,sd,lmax,lmm,0,0,0,0,0,nlb2,bb);
  int na=sa ? 2 : 1,nb=sb ? 2 : 1,nc=sc ? 2 : 1,nd=sd ? 2 : 1;
  long no=((long)(na*nb*(lmax+1)))*(nc*nd*(lmax+1));
  double *m1=D(lmm+1),*m2=D(lmm+1);
  double *ac=D(na*nc*(lmax+1)),*ad=D(na*nd*(lmax+1)),*bc=D(nb*nc*(lmax+1)),*bd=D(nb*nd*(lmax+1)),*out=OUT(no);
  nmt_covar_workspace *cw=covar_workspace_init_py(lmm+1,m1,lmm+1,m2,lmax,lmm,-1,-1,-1,spin0);
  comp_gaussian_covariance_coupled(cw,sa,sb,sc,sd,wa,wb,na*nc,lmax+1,ac,na*nd,lmax+1,ad,nb*nc,lmax+1,bc,
                                   nb*nd,lmax+1,bd,out,no);
  seen(out,no);
  nmt_covar_workspace_free(cw);
  nmt_workspace_free(wa); nmt_workspace_free(wb);
  nmt_bins_free(ba); nmt_bins_free(bb);
  free(m1); free(m2); free(ac); free(ad); free(bc); free(bd); free(out);
  return 0;
}

/* a flat-sky field with nt templates (nt<0: mask only) */
static nmt_field_flat *field(int nx,int ny,double lx,double ly,int spin,int nt,int nl,int pe,int pb,
                             int masked,int lite)
{
  int nm=spin ? 2 : 1,npix=nx*ny;
  double *mask=D(npix),*beam=D(2*nl);
  nmt_field_flat *f;
  if(nt<0)
    f=field_alloc_empty_flat(nx,ny,lx,ly,spin,npix,mask,2,nl,beam,pe,pb);
  else {
    double *m=D(nm*npix);
    if(nt==0)
      f=field_alloc_new_notemp_flat(nx,ny,lx,ly,spin,npix,mask,nm,npix,m,2,nl,beam,pe,pb,masked,lite);
    else {
      double *t=D(nt*nm*npix);
      f=field_alloc_new_flat(nx,ny,lx,ly,spin,npix,mask,nm,npix,m,nt,nm,npix,t,2,nl,beam,pe,pb,1E-10,masked,lite);
      free(t);
    }
    free(m);
  }
  free(mask); free(beam);
  return f;
}

int U_field(int nx,int ny,double lx,double ly,int spin,int nt,int nl,int pe,int pb,int masked,int lite,
            int imap,int itemp)
{
  nmt_field_flat *f=field(nx,ny,lx,ly,spin,nt,nl,pe,pb,masked,lite);
  double *o=OUT(nx*ny),*om=OUT(nx*ny),*ot=OUT(nx*ny),*l=OUT(f->fs->n_ell);
  get_mask_flat(f,o,nx*ny);
  seen(o,nx*ny);
  get_ell_sampling_flat(f,l,f->fs->n_ell);
  seen(l,f->fs->n_ell);
  if((nt>=0) && !lite) {
    get_map_flat(f,imap,om,nx*ny);
    seen(om,nx*ny);
    if(nt>0)
    {
      get_temp_flat(f,itemp,imap,ot,nx*ny);
      seen(ot,nx*ny);
    }
  }
  free(o); free(om); free(ot); free(l);
  nmt_field_flat_free(f);
  return 0;
}

static nmt_binning_scheme_flat *fbands(int nb)
{
  double *lo=D(nb),*hi=D(nb);
  nmt_binning_scheme_flat *b=bins_flat_create_py(nb,lo,nb,hi);
  free(lo); free(hi);
  return b;
}

int U_ws_flat(int nx,int ny,double lx,double ly,int s1,int s2,int nl,int nb,int pe1,int pb1,int pe2,int pb2,
              double lxa,double lxb,double lya,double lyb,int teb,int same)
{
  nmt_field_flat *f1=field(nx,ny,lx,ly,s1,-1,nl,pe1,pb1,0,0);
  nmt_field_flat *f2=same ? f1 : field(nx,ny,lx,ly,s2,-1,nl,pe2,pb2,0,0);
  nmt_binning_scheme_flat *b=fbands(nb);
  nmt_workspace_flat *w=comp_coupling_matrix_flat(f1,f2,b,lxa,lxb,lya,lyb,teb);
  nmt_field_flat_free(f1);
  if(!same) nmt_field_flat_free(f2);
  nmt_bins_flat_free(b);
  nmt_workspace_flat_free(w);
  return 0;
}

int U_ws_flat_use(int nx,int ny,double lx,double ly,int s1,int s2,int nl,int nb,
                  double lxa,double lxb,double lya,double lyb,int nt)
{
  nmt_field_flat *f1=field(nx,ny,lx,ly,s1,nt,nl,0,0,0,0);
  nmt_field_flat *f2=field(nx,ny,lx,ly,s2,nt,nl,0,0,0,0);
  nmt_binning_scheme_flat *b=fbands(nb);
  nmt_workspace_flat *w=comp_coupling_matrix_flat(f1,f2,b,lxa,lxb,lya,lyb,0);
  int nc=(s1 ? 2 : 1)*(s2 ? 2 : 1);
  double *l=D(nl),*th=D(nc*nl),*c=OUT(nc*nb),*c2=OUT(nc*nb),*o=OUT(nc*nb),*ob=OUT(nc*nb);
  comp_pspec_coupled_flat(f1,f2,b,c,nc*nb,lxa,lxb,lya,lyb);
  seen(c,nc*nb);
  couple_cell_py_flat(w,nl,l,nc,nl,th,c2,nc*nb);
  seen(c2,nc*nb);
  decouple_cell_py_flat(w,nc,nb,c,nc,nb,c,nc,nb,c,o,nc*nb);
  seen(o,nc*nb);
  comp_deproj_bias_flat(f1,f2,b,lxa,lxb,lya,lyb,nl,l,nc,nl,th,ob,nc*nb);
  seen(ob,nc*nb);
  free(l); free(th); free(c); free(c2); free(o); free(ob);
  nmt_field_flat_free(f1);
  nmt_field_flat_free(f2);
  nmt_bins_flat_free(b);
  nmt_workspace_flat_free(w);
  return 0;
}

int U_pspec_flat(int nx,int ny,double lx,double ly,int s1,int s2,int nl,int nb,
                 double lxa,double lxb,double lya,double lyb,int nt)
{
  nmt_field_flat *f1=field(nx,ny,lx,ly,s1,nt,nl,0,0,0,0);
  nmt_field_flat *f2=field(nx,ny,lx,ly,s2,nt,nl,0,0,0,0);
  nmt_binning_scheme_flat *b=fbands(nb);
  int nc=(s1 ? 2 : 1)*(s2 ? 2 : 1);
  double *l=D(nl),*th=D(nc*nl),*c=D(nc*nb),*o=OUT(nc*nb);
  comp_pspec_flat(f1,f2,b,NULL,nc,nb,c,nl,l,nc,nl,th,o,nc*nb,lxa,lxb,lya,lyb);
  seen(o,nc*nb);
  free(l); free(th); free(c); free(o);
  nmt_field_flat_free(f1);
  nmt_field_flat_free(f2);
  nmt_bins_flat_free(b);
  return 0;
}

int U_covar_flat(int nx,int ny,double lx,double ly,int sa,int sb,int sc,int sd,int nl,int nb,int nlc)
{
  nmt_field_flat *fa=field(nx,ny,lx,ly,sa,-1,nl,0,0,0,0),*fb=field(nx,ny,lx,ly,sb,-1,nl,0,0,0,0);
  nmt_field_flat *fc=field(nx,ny,lx,ly,sc,-1,nl,0,0,0,0),*fd=field(nx,ny,lx,ly,sd,-1,nl,0,0,0,0);
  nmt_binning_scheme_flat *b=fbands(nb);
  int na=sa ? 2 : 1,n2=sb ? 2 : 1,nc=sc ? 2 : 1,nd=sd ? 2 : 1;
  nmt_workspace_flat *wa=comp_coupling_matrix_flat(fa,fb,b,0.,0.,0.,0.,0);
  nmt_workspace_flat *wb=comp_coupling_matrix_flat(fc,fd,b,0.,0.,0.,0.,0);
  nmt_covar_workspace_flat *cw=covar_workspace_flat_init_py(fa,fb,b,fc,fd,b);
  double *l=D(nlc),*ac=D(na*nc*nlc),*ad=D(na*nd*nlc),*bc=D(n2*nc*nlc),*bd=D(n2*nd*nlc),
    *out=OUT(na*n2*nb*nc*nd*nb);
  comp_gaussian_covariance_flat(cw,sa,sb,sc,sd,wa,wb,nlc,l,na*nc,nlc,ac,na*nd,nlc,ad,n2*nc,nlc,bc,n2*nd,nlc,bd,
                                out,na*n2*nb*nc*nd*nb);
  seen(out,na*n2*nb*nc*nd*nb);
  free(l); free(ac); free(ad); free(bc); free(bd); free(out);
  nmt_field_flat_free(fa); nmt_field_flat_free(fb); nmt_field_flat_free(fc); nmt_field_flat_free(fd);
  nmt_workspace_flat_free(wa); nmt_workspace_flat_free(wb);
  nmt_covar_workspace_flat_free(cw);
  nmt_bins_flat_free(b);
  return 0;
}

int U_apo_flat(int nx,int ny,double lx,double ly,double size,int c2)
{
  double *m=D(nx*ny),*o=OUT(nx*ny);
  apomask_flat(nx,ny,lx,ly,nx*ny,m,o,nx*ny,size,c2==2 ? "Smooth" : (c2 ? "C2" : "C1"));
  seen(o,nx*ny);
  free(m); free(o);
  return 0;
}

int U_apo(int nside,double size,int c2)
{
  int n=12*nside*nside;
  double *m=D(n),*o=OUT(n);
  apomask(n,m,o,n,size,c2==2 ? "Smooth" : (c2 ? "C2" : "C1"));
  seen(o,n);
  free(m); free(o);
  return 0;
}

int U_syn_flat(int nx,int ny,double lx,double ly,int nf,int s1,int s2,int nl,int seed)
{
  int sp[2],nm=(s1 ? 2 : 1)+(nf>1 ? (s2 ? 2 : 1) : 0),nc=nm*(nm+1)/2;
  double *cl=D((nc+1)*nl),*bm=D((nf+1)*nl),*o=OUT(nm*nx*ny);
  sp[0]=s1; sp[1]=s2;
  synfast_new_flat(nx,ny,lx,ly,nf,sp,seed,nc+1,nl,cl,nf+1,nl,bm,o,nm*nx*ny);
  seen(o,nm*nx*ny);
  free(cl); free(bm); free(o);
  return 0;
}

int U_io_ws(int s1,int s2,int lmax,int lmm,int nlb,char *f,int un)
{
  nmt_binning_scheme *b=bands(nlb,lmax);
  nmt_workspace *w=ws(s1,s2,lmax,lmm,0,0,0,0,0,nlb,b),*r;
  write_workspace(w,f);
  r=read_workspace(f,un);
  nmt_bins_free(b);
  nmt_workspace_free(w);
  nmt_workspace_free(r);
  return 0;
}

int U_io_flat(int nx,int ny,double lx,double ly,int s1,int s2,int nl,int nb,char *f)
{
  nmt_field_flat *f1=field(nx,ny,lx,ly,s1,-1,nl,0,0,0,0);
  nmt_binning_scheme_flat *b=fbands(nb);
  nmt_workspace_flat *w=comp_coupling_matrix_flat(f1,f1,b,0.,0.,0.,0.,0),*r;
  write_workspace_flat(w,f);
  r=read_workspace_flat(f);
  nmt_field_flat_free(f1);
  nmt_bins_flat_free(b);
  nmt_workspace_flat_free(w);
  nmt_workspace_flat_free(r);
  return 0;
}

int U_io_cov(int lmax,int lmm,int spin0,int force,char *f)
{
  double *m1=D(lmm+1),*m2=D(lmm+1);
  nmt_covar_workspace *cw=covar_workspace_init_py(lmm+1,m1,lmm+1,m2,lmax,lmm,-1,-1,-1,spin0),*r;
  write_covar_workspace(cw,f);
  r=read_covar_workspace(f,force);
  nmt_covar_workspace_free(cw);
  nmt_covar_workspace_free(r);
  free(m1); free(m2);
  return 0;
}

int U_io_cov_flat(int nx,int ny,double lx,double ly,int sa,int nl,int nb,char *f)
{
  nmt_field_flat *fa=field(nx,ny,lx,ly,sa,-1,nl,0,0,0,0);
  nmt_binning_scheme_flat *b=fbands(nb);
  nmt_covar_workspace_flat *cw=covar_workspace_flat_init_py(fa,fa,b,fa,fa,b),*r;
  write_covar_workspace_flat(cw,f);
  r=read_covar_workspace_flat(f);
  nmt_field_flat_free(fa);
  nmt_bins_flat_free(b);
  nmt_covar_workspace_flat_free(cw);
  nmt_covar_workspace_flat_free(r);
  return 0;
}
