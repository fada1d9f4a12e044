From db8e6474de6891e2f6ce25f81e4f2ecb9dd6fd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 01/27] fix: pass anisotropic mask spectra in the order the C
 prototype expects

The wrapper passed (0e,0b,e0,b0) to a function declared with
(0e,e0,0b,b0), swapping the 0b and e0 mask spectra.
---
 pymaster/namaster.i      | 2 +-
 pymaster/namaster_wrap.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index 710d208..a47c5ca 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -461,7 +461,7 @@ nmt_workspace *comp_coupling_matrix_anisotropic(int spin1,int spin2,
   asserting(nlbb==lmax_mask+1);
   return nmt_compute_coupling_matrix_anisotropic(spin1,spin2,aniso1,aniso2,
 						 lmax,lmax_mask,
-						 fl00,fl0e,fl0b,fle0,flb0,
+						 fl00,fl0e,fle0,fl0b,flb0,
 						 flee,fleb,flbe,flbb,
 						 beam1,beam2,bin,norm_type,w2);
 }						
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index 8bfc6d7..5e79086 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3428,7 +3428,7 @@ nmt_workspace *comp_coupling_matrix_anisotropic(int spin1,int spin2,
   asserting(nlbb==lmax_mask+1);
   return nmt_compute_coupling_matrix_anisotropic(spin1,spin2,aniso1,aniso2,
 						 lmax,lmax_mask,
-						 fl00,fl0e,fl0b,fle0,flb0,
+						 fl00,fl0e,fle0,fl0b,flb0,
 						 flee,fleb,flbe,flbb,
 						 beam1,beam2,bin,norm_type,w2);
 }						
-- 
2.43.0


From 02dc6a43c3cc054d87a493f3d268e5e3529bc016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 02/27] fix: store the FKP normalisation of a workspace in its
 FITS file

nmt_workspace.w2 was neither written nor read, so updating the beams or
bins of an FKP workspace read from file used an uninitialised value.
---
 src/nmt_io.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index bb53372..fd2cddc 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -18,6 +18,7 @@ static void nmt_workspace_info_tohdus(fitsfile *fptr,
   fits_write_key(fptr,TINT,"IS_TEB",&(w->is_teb),NULL,status);
   fits_write_key(fptr,TINT,"NCLS",&(w->ncls),NULL,status);
   fits_write_key(fptr,TINT,"NORM_TYPE",&(w->norm_type),NULL,status);
+  fits_write_key(fptr,TDOUBLE,"W2",&(w->w2),NULL,status);
   for(ii=0;ii<n_el;ii++) {
     fpixel[1]=ii+1;
     fits_write_pix(fptr,TDOUBLE,fpixel,n_el,w->coupling_matrix_unbinned[ii],status);
@@ -42,6 +43,12 @@ static void nmt_workspace_info_fromhdus(fitsfile *fptr,
     w->norm_type=0;
     *status=status_pre;
   }
+  status_pre = *status;
+  fits_read_key(fptr,TDOUBLE,"W2",&(w->w2),NULL,status);
+  if(*status) {// maybe used old format
+    w->w2=0;
+    *status=status_pre;
+  }
   long ii;
   long n_el=w->ncls*(w->lmax+1);
   long fpixel[2]={1,1};
-- 
2.43.0


From 2b26922b6299629dc42287f16ba99eae2a74b193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 03/27] fix: refuse to update beams or bins without the
 unbinned coupling matrix

Both updates rebin the unbinned matrix, which is NULL for workspaces read
with read_unbinned_MCM=False: the process crashed.
---
 pymaster/workspaces.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 447feed..7c498c6 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -179,6 +179,7 @@ class NmtWorkspace(object):
         b2arr = isinstance(beam2, (list, tuple, np.ndarray))
         if ((not b1arr) or (not b2arr)):
             raise ValueError("The new beams must be provided as arrays")
+        self.check_unbinned()
 
         lmax = self.wsp.lmax_fields
         if (len(beam1) <= lmax) or (len(beam2) <= lmax):
@@ -198,6 +199,7 @@ class NmtWorkspace(object):
                              "the mode-coupling matrix")
         if bins.bin is None:
             raise ValueError("Can't replace with uninitialized bins")
+        self.check_unbinned()
         lib.wsp_update_bins(self.wsp, bins.bin)
 
     def compute_coupling_matrix(self, fl1, fl2, bins, is_teb=False,
-- 
2.43.0


From 42e8df4cd83f7717eab843f660aadb491e96dfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 04/27] fix: bound the error message written by report_error

A long file name overflowed the 256-character buffer.
---
 src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index 57ecc14..5971ad5 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -18,7 +18,7 @@ void report_error(int level,char *fmt,...)
   char msg[256];
 
   va_start(args,fmt);
-  vsprintf(msg,fmt,args);
+  vsnprintf(msg,sizeof(msg),fmt,args);
   va_end(args);
   
   if(level) {
-- 
2.43.0


From 5fc62fef127a97966199583d1d21121f2592120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 05/27] fix: make synfast_spherical honour its seed

The seed was never passed to the random number generator.
---
 pymaster/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index b8a717c..57c90b3 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -650,7 +650,13 @@ def synfast_spherical(nside, cls, spin_arr, beam=None, seed=-1,
     # 1. Generate alms
     # Note that, if `new=False` stops being allowed in healpy, we'll need
     # to change the Cl ordering.
-    alms = np.array(hp.synalm(cls, lmax=lmax, mmax=lmax, new=False))
+    # (`healpy` draws from numpy's global generator).
+    rng_state = np.random.get_state()
+    np.random.seed(seed)
+    try:
+        alms = np.array(hp.synalm(cls, lmax=lmax, mmax=lmax, new=False))
+    finally:
+        np.random.set_state(rng_state)
 
     # 2. Multiply by beam
     if beam is not None:
-- 
2.43.0


From 767a47f0f8342302aece72cbf5de20cba75e4a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 06/27] fix: set nmaps for all catalog-based fields

---
 pymaster/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/field.py b/pymaster/field.py
index 2028122..c5d5c17 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -950,6 +950,7 @@ class NmtFieldCatalog(NmtField):
                 raise ValueError("If field is None, spin needs to be "
                                  "provided.")
             self.spin = spin
+            self.nmaps = 2 if spin else 1
             return
 
         # Ensure it's 2D
@@ -1018,6 +1019,7 @@ class NmtFieldCatalogClustering(NmtField):
         self.ainfo = ut.NmtAlmInfo(lmax)
         self._alpha = 0
         self.spin = 0
+        self.nmaps = 1
         self.is_catalog = True
 
         # The remaining attributes are only required for non-lite maps
-- 
2.43.0


From 72dac691c18a34f80c7a65c5a15c3c65a8817d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 07/27] fix: keep a private copy of the beam in fields

Changing the caller's array afterwards changed the field's beam.
---
 pymaster/field.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymaster/field.py b/pymaster/field.py
index c5d5c17..e7eb4ef 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -193,7 +193,7 @@ class NmtField(object):
             if len(beam) <= lmax:
                 raise ValueError("Input beam must have at least %d elements "
                                  "given the input map resolution" % (lmax+1))
-            beam_use = beam
+            beam_use = np.array(beam, dtype=np.float64)
         else:
             if beam is None:
                 beam_use = np.ones(lmax+1)
@@ -701,7 +701,7 @@ class NmtFieldFlat(object):
 
         # Form beam
         if isinstance(beam, (list, tuple, np.ndarray)):
-            beam_use = beam
+            beam_use = np.array(beam, dtype=np.float64)
         else:
             if beam is None:
                 beam_use = np.array([[-1.], [-1.]])
@@ -935,7 +935,7 @@ class NmtFieldCatalog(NmtField):
                 raise ValueError("Input beam must have at least %d elements "
                                  "given the input maximum "
                                  "multipole" % (lmax+1))
-            beam_use = beam
+            beam_use = np.array(beam, dtype=np.float64)
         else:
             if beam is None:
                 beam_use = np.ones(lmax+1)
-- 
2.43.0


From 59b863a2d8f5b4b420ab2652da57aee983dd4f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 08/27] fix: purify fields using the multipole range of the
 field

The spin-2 transform used the mask's maximum multipole, which failed or
gave a wrong result when lmax and lmax_mask differ.
---
 pymaster/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/field.py b/pymaster/field.py
index e7eb4ef..cafb693 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -472,11 +472,11 @@ class NmtField(object):
         maps = maps_u*mask[None, :]
         # Compute alms
         alms = ut.map2alm(maps, 2, self.minfo,
-                          self.ainfo_mask, n_iter=n_iter)
+                          self.ainfo, n_iter=n_iter)
 
         # 2. Spin-1 mask bit
         # Compute spin-1 mask
-        ls = np.arange(self.ainfo_mask.lmax+1)
+        ls = np.arange(max(self.ainfo.lmax, self.ainfo_mask.lmax)+1)
         # The minus sign is because of the definition of E-modes
         fl = -np.sqrt((ls+1.0)*ls)
         walm = hp.almxfl(alm_mask, fl,
-- 
2.43.0


From 63e171ba4be069dcfd128ad30fcad5884e5e54fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 09/27] fix: use the y pixel size when apodizing flat-sky masks

dy was computed from lx and nx, so masks with non-square pixels were
apodized over the wrong distance in y.
---
 src/nmt_mask_flat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nmt_mask_flat.c b/src/nmt_mask_flat.c
index bb29c96..ffe4773 100644
--- a/src/nmt_mask_flat.c
+++ b/src/nmt_mask_flat.c
@@ -24,7 +24,7 @@ static void apodize_mask_CX(nmt_flatsky_info *fs,flouble *mask_in,flouble *mask_
     double x_thr=aporad;
     double inv_x_thr=1./x_thr;
     flouble dx=fs->lx/fs->nx;
-    flouble dy=fs->lx/fs->nx;
+    flouble dy=fs->ly/fs->ny;
     int nx_patch=(int)(1.2*aporad/dx);
     int ny_patch=(int)(1.2*aporad/dy);
     rarr=my_malloc((2*ny_patch+1)*sizeof(flouble *));
@@ -95,7 +95,7 @@ static void apodize_mask_smooth(nmt_flatsky_info *fs,flouble *mask_in,flouble *m
     flouble **rarr;
     double x_thr=2.5*aporad;
     flouble dx=fs->lx/fs->nx;
-    flouble dy=fs->lx/fs->nx;
+    flouble dy=fs->ly/fs->ny;
     int nx_patch=(int)(1.2*x_thr/dx);
     int ny_patch=(int)(1.2*x_thr/dy);
     rarr=my_malloc((2*ny_patch+1)*sizeof(flouble *));
-- 
2.43.0


From f1ff15ba03138535537b6293378b8bb7e6d55ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 10/27] fix: use physical wavenumbers in flat-sky purification

The wavenumbers were computed from the number of pixels rather than from
the patch size, which is wrong for non-square pixels.
---
 src/nmt_field_flat.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nmt_field_flat.c b/src/nmt_field_flat.c
index de5d736..91c96d8 100644
--- a/src/nmt_field_flat.c
+++ b/src/nmt_field_flat.c
@@ -116,8 +116,8 @@ static void walm_x_lpower(nmt_flatsky_info *fs,fcomplex **walm_in,fcomplex **wal
   shared(fs,walm_in,walm_out,power)
   {
     int iy;
-    flouble dkx=2*M_PI/fs->nx;
-    flouble dky=2*M_PI/fs->ny;
+    flouble dkx=2*M_PI/fs->lx;
+    flouble dky=2*M_PI/fs->ly;
 
 #pragma omp for   
     for(iy=0;iy<fs->ny;iy++) {
@@ -190,8 +190,8 @@ void nmt_purify_flat(nmt_field_flat *fl,flouble *mask,fcomplex **walm0,
 #pragma omp parallel default(none) shared(fl,imap,alm_out,palm)
       {
 	int iy;
-	flouble dkx=2*M_PI/fl->fs->nx;
-	flouble dky=2*M_PI/fl->fs->ny;
+	flouble dkx=2*M_PI/fl->fs->lx;
+	flouble dky=2*M_PI/fl->fs->ly;
 	
 #pragma omp for
 	for(iy=0;iy<fl->fs->ny;iy++) {
@@ -228,8 +228,8 @@ void nmt_purify_flat(nmt_field_flat *fl,flouble *mask,fcomplex **walm0,
 #pragma omp parallel default(none) shared(fl,imap,alm_out,palm)
       {
 	int iy;
-	flouble dkx=2*M_PI/fl->fs->nx;
-	flouble dky=2*M_PI/fl->fs->ny;
+	flouble dkx=2*M_PI/fl->fs->lx;
+	flouble dky=2*M_PI/fl->fs->ly;
 	
 #pragma omp for
 	for(iy=0;iy<fl->fs->ny;iy++) {
-- 
2.43.0


From 81bce1626bc4af8ede622aaf33fe23068eff12a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 11/27] fix: avoid integer overflow in products of sizes

The product of the number of modes in two flat-sky bandpowers overflows
for maps as small as 1024x1024; matrix offsets overflow above 46340 rows.
---
 pymaster/namaster.i      | 4 ++--
 pymaster/namaster_wrap.c | 4 ++--
 src/nmt_covar.c          | 2 +-
 src/nmt_covar_flat.c     | 4 ++--
 src/nmt_field_flat.c     | 2 +-
 src/nmt_io.c             | 4 ++--
 src/nmt_master.c         | 2 +-
 7 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index a47c5ca..b9c5058 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -123,7 +123,7 @@ nmt_binning_scheme *bins_create_py(int nell1,int *bpws,
 
 void update_mcm(nmt_workspace *w,int n_rows,int nell3,double *weights)
 {
-  asserting(nell3==n_rows*n_rows);
+  asserting(nell3==((long)n_rows)*n_rows);
 
   nmt_update_coupling_matrix(w,n_rows,weights);
 }
@@ -141,7 +141,7 @@ void get_mcm(nmt_workspace *w,double *ldout,long nldout)
   for(ii=0;ii<nrows;ii++) {
     int jj;
     for(jj=0;jj<nrows;jj++) {
-      long index=(long)(ii*nrows)+jj;
+      long index=((long)ii)*nrows+jj;
       ldout[index]=w->coupling_matrix_unbinned[ii][jj];
     }
   }
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index 5e79086..ddec266 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3090,7 +3090,7 @@ nmt_binning_scheme *bins_create_py(int nell1,int *bpws,
 
 void update_mcm(nmt_workspace *w,int n_rows,int nell3,double *weights)
 {
-  asserting(nell3==n_rows*n_rows);
+  asserting(nell3==((long)n_rows)*n_rows);
 
   nmt_update_coupling_matrix(w,n_rows,weights);
 }
@@ -3108,7 +3108,7 @@ void get_mcm(nmt_workspace *w,double *ldout,long nldout)
   for(ii=0;ii<nrows;ii++) {
     int jj;
     for(jj=0;jj<nrows;jj++) {
-      long index=(long)(ii*nrows)+jj;
+      long index=((long)ii)*nrows+jj;
       ldout[index]=w->coupling_matrix_unbinned[ii][jj];
     }
   }
diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 75a74ee..408e7aa 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -171,7 +171,7 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
 			}
 		      }
 		    }
-                    covar_out[((wa->ncls*la+icl_a)*(cw->lmax+1)+lb)*wb->ncls+icl_b]=cov_element;
+                    covar_out[(((long)(wa->ncls*la+icl_a))*(cw->lmax+1)+lb)*wb->ncls+icl_b]=cov_element;
 		  }
 		}
 	      }
diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index 6fa3921..00fb64b 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -259,8 +259,8 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
       int ib2;
       for(ib2=0;ib2<cw->bin->n_bands;ib2++) {
 	flouble norm;
-	if(n_cells[ib1]*n_cells[ib2]>0)
-	  norm=fac_norm/(n_cells[ib1]*n_cells[ib2]);
+	if((n_cells[ib1]>0) && (n_cells[ib2]>0))
+	  norm=fac_norm/(((double)n_cells[ib1])*n_cells[ib2]);
 	else
 	  norm=0;
 	cw->xi00_1122[ib1][ib2]*=norm;
diff --git a/src/nmt_field_flat.c b/src/nmt_field_flat.c
index 91c96d8..49f7c11 100644
--- a/src/nmt_field_flat.c
+++ b/src/nmt_field_flat.c
@@ -526,7 +526,7 @@ flouble **nmt_synfast_flat(int nx,int ny,flouble lx,flouble ly,int nfields,int *
 {
   int ifield,imap;
   int nmaps=0,ncls=0;
-  long npix=nx*ny;
+  long npix=nx*((long)ny);
   nmt_k_function **beam,**cell;
   flouble **maps;
   fcomplex **alms;
diff --git a/src/nmt_io.c b/src/nmt_io.c
index fd2cddc..a782130 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -280,7 +280,7 @@ static void nmt_coupling_binned_tohdus(fitsfile *fptr,
   //Flatten matrix
   double *matrix_binned=my_malloc(n_el*n_el*sizeof(double));
   for(ii=0;ii<n_el;ii++) {
-    int i0=ii*n_el;
+    long i0=ii*n_el;
     for(jj=0;jj<n_el;jj++)
       matrix_binned[i0+jj]=gsl_matrix_get(w->coupling_matrix_binned,ii,jj);
   }
@@ -319,7 +319,7 @@ static void nmt_coupling_binned_fromhdus(fitsfile *fptr,
   w->coupling_matrix_binned=gsl_matrix_alloc(n_el,n_el);
   long ii,jj;
   for(ii=0;ii<n_el;ii++) {
-    int i0=ii*n_el;
+    long i0=ii*n_el;
     for(jj=0;jj<n_el;jj++)
       gsl_matrix_set(w->coupling_matrix_binned,ii,jj,matrix_binned[i0+jj]);
   }
diff --git a/src/nmt_master.c b/src/nmt_master.c
index a8ca0dc..dbfec4b 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -113,7 +113,7 @@ void nmt_update_coupling_matrix(nmt_workspace *w,int n_rows,double *new_matrix)
   }
 
   for(ii=0;ii<n_rows;ii++)
-    memcpy(w->coupling_matrix_unbinned[ii],&(new_matrix[ii*n_rows]),n_rows*sizeof(flouble));
+    memcpy(w->coupling_matrix_unbinned[ii],&(new_matrix[((long)ii)*n_rows]),n_rows*sizeof(flouble));
   bin_coupling_matrix(w);
 }
 
-- 
2.43.0


From b74b3bdbd9e2fffa92b4898e026806dcca6ee4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 12/27] fix: reject negative indices in the accessors of the
 wrapper

A negative band, map or template index read out of bounds.
---
 pymaster/namaster.i      | 12 ++++++------
 pymaster/namaster_wrap.c | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index b9c5058..1990fb9 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -75,14 +75,14 @@ void get_nell_list(nmt_binning_scheme *bins,int *iout,int niout)
 
 int get_nell(nmt_binning_scheme *bins,int ibin)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   
   return bins->nell_list[ibin];
 }
 
 void get_ell_list(nmt_binning_scheme *bins,int ibin,int *iout,int niout)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   asserting(bins->nell_list[ibin]==niout);
 
   memcpy(iout,bins->ell_list[ibin],bins->nell_list[ibin]*sizeof(int));
@@ -90,7 +90,7 @@ void get_ell_list(nmt_binning_scheme *bins,int ibin,int *iout,int niout)
 
 void get_weight_list(nmt_binning_scheme *bins,int ibin,double *dout,int ndout)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   asserting(bins->nell_list[ibin]==ndout);
 
   memcpy(dout,bins->w_list[ibin],bins->nell_list[ibin]*sizeof(double));
@@ -341,15 +341,15 @@ void get_mask_flat(nmt_field_flat *fl,double *dout,int ndout)
 
 void get_map_flat(nmt_field_flat *fl,int imap,double *dout,int ndout)
 {
-  asserting(imap<fl->nmaps);
+  asserting((imap>=0) && (imap<fl->nmaps));
   asserting(ndout==fl->npix);
   memcpy(dout,fl->maps[imap],fl->npix*sizeof(double));
 }
 
 void get_temp_flat(nmt_field_flat *fl,int itemp,int imap,double *dout,int ndout)
 {
-  asserting(itemp<fl->ntemp);
-  asserting(imap<fl->nmaps);
+  asserting((itemp>=0) && (itemp<fl->ntemp));
+  asserting((imap>=0) && (imap<fl->nmaps));
   asserting(ndout==fl->npix);
   memcpy(dout,fl->temp[itemp][imap],fl->npix*sizeof(double));
 }
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index ddec266..b5c033d 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3042,14 +3042,14 @@ void get_nell_list(nmt_binning_scheme *bins,int *iout,int niout)
 
 int get_nell(nmt_binning_scheme *bins,int ibin)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   
   return bins->nell_list[ibin];
 }
 
 void get_ell_list(nmt_binning_scheme *bins,int ibin,int *iout,int niout)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   asserting(bins->nell_list[ibin]==niout);
 
   memcpy(iout,bins->ell_list[ibin],bins->nell_list[ibin]*sizeof(int));
@@ -3057,7 +3057,7 @@ void get_ell_list(nmt_binning_scheme *bins,int ibin,int *iout,int niout)
 
 void get_weight_list(nmt_binning_scheme *bins,int ibin,double *dout,int ndout)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   asserting(bins->nell_list[ibin]==ndout);
 
   memcpy(dout,bins->w_list[ibin],bins->nell_list[ibin]*sizeof(double));
@@ -3308,15 +3308,15 @@ void get_mask_flat(nmt_field_flat *fl,double *dout,int ndout)
 
 void get_map_flat(nmt_field_flat *fl,int imap,double *dout,int ndout)
 {
-  asserting(imap<fl->nmaps);
+  asserting((imap>=0) && (imap<fl->nmaps));
   asserting(ndout==fl->npix);
   memcpy(dout,fl->maps[imap],fl->npix*sizeof(double));
 }
 
 void get_temp_flat(nmt_field_flat *fl,int itemp,int imap,double *dout,int ndout)
 {
-  asserting(itemp<fl->ntemp);
-  asserting(imap<fl->nmaps);
+  asserting((itemp>=0) && (itemp<fl->ntemp));
+  asserting((imap>=0) && (imap<fl->nmaps));
   asserting(ndout==fl->npix);
   memcpy(dout,fl->temp[itemp][imap],fl->npix*sizeof(double));
 }
-- 
2.43.0


From 89d238f10f45e28fec60919e3321ea72a4752ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 13/27] fix: zero the elements of the coupled covariance
 outside the bandpowers

They were returned uninitialised.
---
 src/nmt_covar.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 408e7aa..4c6106c 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -108,6 +108,9 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
   if((wa->ncls!=nmaps_a*nmaps_b) || (wb->ncls!=nmaps_c*nmaps_d))
     report_error(NMT_ERROR_COVAR,"Input spins don't match input workspaces\n");
 
+  //Elements outside the bandpowers are not computed below
+  memset(covar_out,0,((size_t)(wa->ncls*(cw->lmax+1)))*(wb->ncls*(cw->lmax+1))*sizeof(flouble));
+
 #pragma omp parallel default(none)			\
   shared(cw,spin_a,spin_b,spin_c,spin_d)                \
   shared(wa,wb,clac,clad,clbc,clbd)			\
-- 
2.43.0


From ce10b59cd47506ecaa259ba5c39b9459d7e209df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 14/27] fix: release all the memory held by covariance
 workspaces

---
 src/nmt_covar.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 4c6106c..4d512b9 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -63,6 +63,7 @@ nmt_covar_workspace *nmt_covar_workspace_init(flouble *cl_masks_11_22,
     free(c->xi_mm);
   }
   free(c->xi_00);
+  free(c->lfac);
   free(c);
   free(cl_masks[0]);
   free(cl_masks[1]);
@@ -85,6 +86,16 @@ void nmt_covar_workspace_free(nmt_covar_workspace *cw)
       free(cw->xi22m_1221[ii]);
     }
   }
+  free(cw->xi00_1122);
+  free(cw->xi00_1221);
+  if(cw->spin0_only==0) {
+    free(cw->xi02_1122);
+    free(cw->xi02_1221);
+    free(cw->xi22p_1122);
+    free(cw->xi22p_1221);
+    free(cw->xi22m_1122);
+    free(cw->xi22m_1221);
+  }
   free(cw);
 }
 
-- 
2.43.0


From 7f23978bb06acc5740e54fd75a4dc03b4034377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 15/27] fix: store lmax_mask in covariance workspace files

Writing a workspace overwrote its lmax_mask, and reading one left it
uninitialised.
---
 src/nmt_io.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index a782130..36aaaf2 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -798,7 +798,7 @@ void nmt_covar_workspace_write_fits(nmt_covar_workspace *cw,char *fname)
   fits_create_img(fptr,BYTE_IMG,0,NULL,&status);
   fits_write_key(fptr,TSTRING,"EXTNAME","CWSP_PRIMARY",NULL,&status);
   fits_write_key(fptr,TINT,"LMAX",&(cw->lmax),NULL,&status);
-  cw->lmax_mask=cw->lmax;
+  fits_write_key(fptr,TINT,"LMAX_MASK",&(cw->lmax_mask),NULL,&status);
   fits_write_key(fptr,TINT,"SPIN0_ONLY",&(cw->spin0_only),NULL,&status);
   check_fits(status,fname,0);
 
@@ -834,6 +834,11 @@ nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
   fits_movnam_hdu(fptr,ANY_HDU,"CWSP_PRIMARY",0,&status);
   fits_read_key(fptr,TINT,"LMAX",&(cw->lmax),NULL,&status);
   check_fits(status,fname,1);
+  fits_read_key(fptr,TINT,"LMAX_MASK",&(cw->lmax_mask),NULL,&status);
+  if(status) {//Old format
+    cw->lmax_mask=cw->lmax;
+    status=0;
+  }
   if(force_spin0)
     cw->spin0_only=1;
   else {
-- 
2.43.0


From 4fa18be028b44a46eacdc3d63f999ab3ea650096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 16/27] fix: size the Wigner arrays by the largest multipole
 range

With lmax_mask < lmax they were too small and the process crashed.
---
 src/nmt_master.c | 72 ++++++++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index dbfec4b..550b2e3 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -229,11 +229,11 @@ static void populate_toeplitz(nmt_master_calculator *c, flouble **pcl_masks, int
     int l3_list[2];
     double *wigner_00=NULL,*wigner_ss1=NULL,*wigner_ss2=NULL;
     if(c->has_00 || c->has_0s)
-      wigner_00=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_00=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     if(c->has_0s || c->has_ss)
-      wigner_ss1=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss1=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     if(has_ss2)
-      wigner_ss2=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     else
       wigner_ss2=wigner_ss1;
 
@@ -246,18 +246,18 @@ static void populate_toeplitz(nmt_master_calculator *c, flouble **pcl_masks, int
       for(il3=0;il3<2;il3++) {
         int ll3=l3_list[il3];
         int l1,lmin_here,lmax_here;
-	int lmin_00=0,lmax_00=2*(c->lmax_mask+1)+1;
-	int lmin_ss1=0,lmax_ss1=2*(c->lmax_mask+1)+1;
-	int lmin_ss2=0,lmax_ss2=2*(c->lmax_mask+1)+1;
+	int lmin_00=0,lmax_00=2*(NMT_MAX(c->lmax,c->lmax_mask)+1)+1;
+	int lmin_ss1=0,lmax_ss1=2*(NMT_MAX(c->lmax,c->lmax_mask)+1)+1;
+	int lmin_ss2=0,lmax_ss2=2*(NMT_MAX(c->lmax,c->lmax_mask)+1)+1;
         lmin_here=abs(ll2-ll3);
         lmax_here=ll2+ll3;
 
 	if(c->has_00 || c->has_0s)
-	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(c->lmax_mask+1));
+	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
 	if(c->has_0s || c->has_ss)
-	  drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(c->lmax_mask+1));
+	  drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
         if(has_ss2)
-          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
         else {
           lmin_ss2=lmin_ss1;
           lmax_ss2=lmax_ss1;
@@ -511,18 +511,18 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
     int ll2,ll3;
     double *wigner_ss1=NULL, *wigner_ss2=NULL, *wigner_ss1a=NULL, *wigner_ss2a=NULL;
     // s -s 0 terms
-    wigner_ss1=my_malloc(2*(lmax_mask+1)*sizeof(double));
+    wigner_ss1=my_malloc(2*(NMT_MAX(lmax,lmax_mask)+1)*sizeof(double));
     if(reuse_ss1)
       wigner_ss2=wigner_ss1;
     else
-      wigner_ss2=my_malloc(2*(lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(2*(NMT_MAX(lmax,lmax_mask)+1)*sizeof(double));
 
     // s s -2s terms
     if(mask_aniso_1)
-      wigner_ss1a=my_malloc(2*(lmax_mask+1)*sizeof(double));
+      wigner_ss1a=my_malloc(2*(NMT_MAX(lmax,lmax_mask)+1)*sizeof(double));
     if(mask_aniso_2) {
       if((!reuse_ss1) || (mask_aniso_1 == 0))
-	wigner_ss2a=my_malloc(2*(lmax_mask+1)*sizeof(double));
+	wigner_ss2a=my_malloc(2*(NMT_MAX(lmax,lmax_mask)+1)*sizeof(double));
       else
 	wigner_ss2a=wigner_ss1a;
     }
@@ -532,28 +532,28 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
       for(ll3=lstart;ll3<=lmax;ll3++) {  //TODO: investigate if there are ell-ell' symmetries to exploit
 	int l1,lmin_here,lmax_here;
 	int l3fac=2*ll3+1;
-	int lmin_ss1=0,lmax_ss1=2*(lmax_mask+1)+1;
-	int lmin_ss2=0,lmax_ss2=2*(lmax_mask+1)+1;
-	int lmin_ss1a=0,lmax_ss1a=2*(lmax_mask+1)+1;
-	int lmin_ss2a=0,lmax_ss2a=2*(lmax_mask+1)+1;
+	int lmin_ss1=0,lmax_ss1=2*(NMT_MAX(lmax,lmax_mask)+1)+1;
+	int lmin_ss2=0,lmax_ss2=2*(NMT_MAX(lmax,lmax_mask)+1)+1;
+	int lmin_ss1a=0,lmax_ss1a=2*(NMT_MAX(lmax,lmax_mask)+1)+1;
+	int lmin_ss2a=0,lmax_ss2a=2*(NMT_MAX(lmax,lmax_mask)+1)+1;
 	lmin_here=abs(ll2-ll3);
 	lmax_here=ll2+ll3;
 
 	// s -s 0 terms
-	drc3jj(ll2,ll3,spin1,-spin1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(lmax_mask+1));
+	drc3jj(ll2,ll3,spin1,-spin1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(NMT_MAX(lmax,lmax_mask)+1));
 	if(reuse_ss1) {
 	  lmin_ss2=lmin_ss1;
 	  lmax_ss2=lmax_ss1;
 	}
 	else
-	  drc3jj(ll2,ll3,spin2,-spin2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(lmax_mask+1));
+	  drc3jj(ll2,ll3,spin2,-spin2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(NMT_MAX(lmax,lmax_mask)+1));
 
 	// s s -2s terms
 	if(mask_aniso_1)
-	  drc3jj(ll2,ll3,spin1,spin1,&lmin_ss1a,&lmax_ss1a,wigner_ss1a,2*(lmax_mask+1));
+	  drc3jj(ll2,ll3,spin1,spin1,&lmin_ss1a,&lmax_ss1a,wigner_ss1a,2*(NMT_MAX(lmax,lmax_mask)+1));
 	if(mask_aniso_2) {
 	  if((!reuse_ss1) || (mask_aniso_1 == 0))
-	    drc3jj(ll2,ll3,spin2,spin2,&lmin_ss2a,&lmax_ss2a,wigner_ss2a,2*(lmax_mask+1));
+	    drc3jj(ll2,ll3,spin2,spin2,&lmin_ss2a,&lmax_ss2a,wigner_ss2a,2*(NMT_MAX(lmax,lmax_mask)+1));
 	  else {
 	    lmin_ss2a=lmin_ss1a;
 	    lmax_ss2a=lmax_ss1a;
@@ -768,16 +768,16 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
     int ll2,ll3,icc;
     double *wigner_00=NULL,*wigner_ss1=NULL,*wigner_12=NULL,*wigner_02=NULL,*wigner_ss2=NULL;
     if(c->has_00 || c->has_0s)
-      wigner_00=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_00=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     if(c->has_0s || c->has_ss)
-      wigner_ss1=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss1=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     if(has_ss2)
-      wigner_ss2=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     else
       wigner_ss2=wigner_ss1;
     if(c->pure_any) {
-      wigner_12=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
-      wigner_02=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_12=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
+      wigner_02=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     }
 
 #pragma omp for schedule(dynamic)
@@ -788,11 +788,11 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
         l3_start=ll2;
       for(ll3=l3_start;ll3<=l3_end;ll3++) {
         int l1,lmin_here,lmax_here;
-        int lmin_00=0,lmax_00=2*(c->lmax_mask+1)+1;
-        int lmin_ss1=0,lmax_ss1=2*(c->lmax_mask+1)+1;
-        int lmin_ss2=0,lmax_ss2=2*(c->lmax_mask+1)+1;
-        int lmin_12=0,lmax_12=2*(c->lmax_mask+1)+1;
-        int lmin_02=0,lmax_02=2*(c->lmax_mask+1)+1;
+        int lmin_00=0,lmax_00=2*(NMT_MAX(c->lmax,c->lmax_mask)+1)+1;
+        int lmin_ss1=0,lmax_ss1=2*(NMT_MAX(c->lmax,c->lmax_mask)+1)+1;
+        int lmin_ss2=0,lmax_ss2=2*(NMT_MAX(c->lmax,c->lmax_mask)+1)+1;
+        int lmin_12=0,lmax_12=2*(NMT_MAX(c->lmax,c->lmax_mask)+1)+1;
+        int lmin_02=0,lmax_02=2*(NMT_MAX(c->lmax,c->lmax_mask)+1)+1;
         lmin_here=abs(ll2-ll3);
         lmax_here=ll2+ll3;
 
@@ -811,18 +811,18 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
         }
 
         if(c->has_00 || c->has_0s)
-	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(c->lmax_mask+1));
+	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
         if(c->has_0s || c->has_ss)
-          drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
         if(has_ss2)
-          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
         else {
           lmin_ss2=lmin_ss1;
           lmax_ss2=lmax_ss1;
         }
 	if(c->pure_any) {
-	  drc3jj(ll2,ll3,1,-2,&lmin_12,&lmax_12,wigner_12,2*(c->lmax_mask+1));
-	  drc3jj(ll2,ll3,0,-2,&lmin_02,&lmax_02,wigner_02,2*(c->lmax_mask+1));
+	  drc3jj(ll2,ll3,1,-2,&lmin_12,&lmax_12,wigner_12,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
+	  drc3jj(ll2,ll3,0,-2,&lmin_02,&lmax_02,wigner_02,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
 	}
 
         for(l1=lmin_here;l1<=lmax_here;l1++) {
-- 
2.43.0


From a326115301f5a32fdbe4d6d935e8b2336f5d8592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 17/27] fix: report errors flushing workspace files to disk

The status of the call that closes the file was ignored, so a full disk
went unnoticed.
---
 src/nmt_io.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 36aaaf2..81c9b42 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -368,6 +368,7 @@ void nmt_workspace_write_fits(nmt_workspace *w,char *fname)
   nmt_coupling_binned_tohdus(fptr,w,&status);
   check_fits(status,fname,0);
   fits_close_file(fptr,&status);
+  check_fits(status,fname,0);
 }
 
 nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
@@ -716,6 +717,7 @@ void nmt_workspace_flat_write_fits(nmt_workspace_flat *w,char *fname)
   nmt_binning_scheme_flat_tohdus(fptr,w->bin,&status);
   check_fits(status,fname,0);
   fits_close_file(fptr,&status);
+  check_fits(status,fname,0);
 }
 
 nmt_workspace_flat *nmt_workspace_flat_read_fits(char *fname)
@@ -821,6 +823,7 @@ void nmt_covar_workspace_write_fits(nmt_covar_workspace *cw,char *fname)
     check_fits(status,fname,0);
   }
   fits_close_file(fptr,&status);
+  check_fits(status,fname,0);
 }
 
 nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
@@ -915,6 +918,7 @@ void nmt_covar_workspace_flat_write_fits(nmt_covar_workspace_flat *cw,char *fnam
   nmt_covar_coeffs_tohdus(fptr,cw->bin->n_bands,cw->xi22m_1221,"XI22M_1221",&status);
   check_fits(status,fname,0);
   fits_close_file(fptr,&status);
+  check_fits(status,fname,0);
 }
 
 nmt_covar_workspace_flat *nmt_covar_workspace_flat_read_fits(char *fname)
-- 
2.43.0


From d61ab1f51105b254c76b35e01fff67ecb8434a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:17 +0000
Subject: [PATCH 18/27] fix: make synfast_flat reproducible for a fixed seed

Each thread was seeded by the order in which it started, so the same seed
gave different maps in each call and for different numbers of threads.
---
 src/flatsky_utils.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index 4f8c387..9fdbe47 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -481,19 +481,17 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
   //Switch off error handler for Cholesky decomposition
   gsl_error_handler_t *geh=gsl_set_error_handler_off();
 
-  int numthr=0;
+  //One seed per row, so the result does not depend on the number of threads
+  int irow;
+  gsl_rng *rng_seeds=init_rng((unsigned int)seed);
+  unsigned long *row_seeds=my_malloc(ny*sizeof(unsigned long));
+  for(irow=0;irow<ny;irow++)
+    row_seeds[irow]=gsl_rng_get(rng_seeds);
+  end_rng(rng_seeds);
 
 #pragma omp parallel default(none)			\
-  shared(nx,ny,lx,ly,nmaps,cells,beam,seed,alms,numthr)
+  shared(nx,ny,lx,ly,nmaps,cells,beam,row_seeds,alms)
   {
-    //This is to avoid using the omp.h library
-    int ithr;
-#pragma omp critical
-    {
-      ithr=numthr;
-      numthr++;
-    }
-
     int iy;
     double dkx=2*M_PI/lx,dky=2*M_PI/ly;
     double inv_dkvol=1./(dkx*dky);
@@ -505,8 +503,7 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
     gsl_vector *eval =gsl_vector_alloc(nmaps);
     gsl_matrix *evec =gsl_matrix_alloc(nmaps,nmaps); 
     gsl_eigen_symmv_workspace *wsym=gsl_eigen_symmv_alloc(nmaps);
-    unsigned int seed_thr=(unsigned int)(seed+ithr);
-    gsl_rng *rng=init_rng(seed_thr);
+    gsl_rng *rng=init_rng(0);
     gsl_interp_accel *intacc_cells=gsl_interp_accel_alloc();
     gsl_interp_accel *intacc_beam=gsl_interp_accel_alloc();
 
@@ -518,6 +515,7 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
 	ky=iy*dky;
       else
 	ky=-(ny-iy)*dky;
+      gsl_rng_set(rng,row_seeds[iy]);
       for(ix=0;ix<=nx/2;ix++) {
 	int imp1,imp2;
 	flouble kx=ix*dkx;
@@ -595,6 +593,8 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
     gsl_interp_accel_free(intacc_beam);
   } //omp end parallel
 
+  free(row_seeds);
+
   //Restore error handler
   gsl_set_error_handler(geh);
 
-- 
2.43.0


From 917f6a247448d8e068862067fe7c40eb63aaacb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 19/27] fix: check the status of a read before using the size
 it returns

Sizes were used uninitialised when a table was missing, and workspace
files with the old bandpower tables could never be read.
---
 src/nmt_io.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 81c9b42..5d22794 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -109,6 +109,8 @@ static double *nmt_l_arr_fromhdus(fitsfile *fptr, int lmax_expect, char *arrname
   *status=0;
   fits_movnam_hdu(fptr,BINARY_TBL,arrname,0,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return NULL;
   if(nrows!=lmax_expect+1) {
     report_error(NMT_ERROR_INCONSISTENT,
 		 "Expected %d elements, but got %ld\n",
@@ -132,6 +134,8 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus(fitsfile *fptr,
   fits_read_key(fptr,TINT,"N_BANDS",&n_bands,NULL,status);
   fits_read_key(fptr,TINT,"ELL_MAX",&ell_max,NULL,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return NULL;
   bpws=my_malloc(nrows*sizeof(int));
   ells=my_malloc(nrows*sizeof(int));
   weights=my_malloc(nrows*sizeof(flouble));
@@ -168,6 +172,10 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus_old(fitsfile *fptr,
   fits_read_key(fptr,TINT,"N_BANDS",&(b->n_bands),NULL,status);
   fits_read_key(fptr,TINT,"ELL_MAX",&(b->ell_max),NULL,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status) {
+    free(b);
+    return NULL;
+  }
   if(nrows!=b->n_bands) {
     report_error(NMT_ERROR_INCONSISTENT,
 		 "Number of bands doesn't match table size\n");
@@ -390,8 +398,10 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
   check_fits(status,fname,1);
   // bins HDUs
   w->bin=nmt_binning_scheme_fromhdus(fptr,&status);
-  if(status) // maybe used old format
+  if(status) { // maybe used old format
+    status=0;
     w->bin=nmt_binning_scheme_fromhdus_old(fptr,&status);
+  }
   check_fits(status,fname,1);
   // binned MCM HDU
   nmt_coupling_binned_fromhdus(fptr,w,&status);
@@ -684,6 +694,10 @@ static nmt_binning_scheme_flat *nmt_binning_scheme_flat_fromhdus(fitsfile *fptr,
 
   fits_movnam_hdu(fptr,BINARY_TBL,"BINS_SUMMARY",0,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status) {
+    free(b);
+    return NULL;
+  }
   b->n_bands=nrows;
   b->ell_0_list=my_malloc(b->n_bands*sizeof(flouble));
   b->ell_f_list=my_malloc(b->n_bands*sizeof(flouble));
@@ -774,6 +788,8 @@ static double **nmt_covar_coeffs_fromhdus(fitsfile *fptr,
 
   fits_movnam_hdu(fptr,IMAGE_HDU,name,0,status);
   fits_get_img_size(fptr,2,naxes,status);
+  if(*status)
+    return NULL;
   n_el=naxes[0];
   if(n_el!=n_expected)
     report_error(NMT_ERROR_INCONSISTENT,"Mistmatching coefficient size\n");
-- 
2.43.0


From 3afff641bf2f767edbb46579ddce696e1455b38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:59 +0000
Subject: [PATCH 20/27] fix: sign of anisotropic coupling matrices for odd
 spin1+spin2

---
 src/nmt_master.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 550b2e3..1fcc879 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -478,10 +478,10 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
     }
   }
 
-  int sign_00 = 1;
-  int sign_0P = (spin2 & 1) ? -1 : 1;
-  int sign_P0 = (spin1 & 1) ? -1 : 1;
-  int sign_PP = ((spin1+spin2) & 1) ? -1 : 1;
+  int sign_00 = ((spin1+spin2) & 1) ? -1 : 1;
+  int sign_0P = (spin1 & 1) ? -1 : 1;
+  int sign_P0 = (spin2 & 1) ? -1 : 1;
+  int sign_PP = 1;
   for(l2=0;l2<=lmax_mask;l2++) {
     flouble fac=(2*l2+1)/(4*M_PI);
     pcl_masks[i_00][l2] *= sign_00*fac;
-- 
2.43.0


From f67184000024ee5f32fe875faea4ec33436abe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 21/27] fix: multipoles between flat-sky bandpowers belong to
 no bandpower

---
 src/nmt_bins_flat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nmt_bins_flat.c b/src/nmt_bins_flat.c
index f265108..1a4357d 100644
--- a/src/nmt_bins_flat.c
+++ b/src/nmt_bins_flat.c
@@ -12,7 +12,7 @@ int nmt_bins_flat_search_fast(nmt_binning_scheme_flat *bin,flouble l,int il)
       if(l<bin->ell_0_list[ilback])
 	ilback--;
       else
-	return ilback;
+	return (l<bin->ell_f_list[ilback]) ? ilback : -1;
     }
     return -1;
   }
@@ -22,7 +22,7 @@ int nmt_bins_flat_search_fast(nmt_binning_scheme_flat *bin,flouble l,int il)
       if(l>=bin->ell_f_list[ilback])
 	ilback++;
       else
-	return ilback;
+	return (l>=bin->ell_0_list[ilback]) ? ilback : -1;
     }
     return -1;
   }
-- 
2.43.0


From ceb25efdc7c4c79239a56e563265a34c6a7dd52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 22/27] fix: purify the spin-2 field when correlating it with a
 field of another spin

---
 src/nmt_master.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 1fcc879..c928a62 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -889,10 +889,12 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
                 int suml=l1+ll2+ll3;
                 wfac_ispure[0]=wss1;
                 wfac_ispure[0]*=wss2*pcl[l1];
-                if(c->pure_any) {
-                  wfac_ispure[1]=wss1+fac_12*w12+fac_02*w02;
+                if(c->pure_any) { // Only spin-2 fields can be pure
+                  flouble wpure=(c->s1==2) ? wss1 : wss2;
+                  flouble wother=(c->s1==2) ? wss2 : wss1;
+                  wfac_ispure[1]=wpure+fac_12*w12+fac_02*w02;
                   wfac_ispure[2]=wfac_ispure[1]*wfac_ispure[1]*pcl[l1];
-                  wfac_ispure[1]*=wss2*pcl[l1];
+                  wfac_ispure[1]*=wother*pcl[l1];
                 }
 
                 if(suml & 1) { //Odd sum
-- 
2.43.0


From 0766e4844e9e7c247f91af27a1dba11d5f06edd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 23/27] fix: Fourier modes of the mask at negative kx in
 flat-sky coupling matrices

---
 src/nmt_master_flat.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 3520ff0..5860c54 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -180,17 +180,19 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
 	ky=-(fs->ny-iy1)*dky;
       for(ix1=0;ix1<fs->nx;ix1++) {
 	flouble kx,kmod,beam1,beam2;
-	int ix_here,index_here,index;
+	int ix_here,iy_here,index_here,index;
 	index=ix1+fs->nx*iy1;
 	if(2*ix1<=fs->nx) {
 	  kx=ix1*dkx;
 	  ix_here=ix1;
+	  iy_here=iy1;
 	}
-	else {
+	else { //Fourier modes of real maps: F(-k)=F(k)^*
 	  kx=-(fs->nx-ix1)*dkx;
 	  ix_here=fs->nx-ix1;
+	  iy_here=(fs->ny-iy1)%fs->ny;
 	}
-	index_here=ix_here+(fs->nx/2+1)*iy1;
+	index_here=ix_here+(fs->nx/2+1)*iy_here;
 	
 	maskprod[index]=(creal(cmask1[index_here])*creal(cmask2[index_here])+
 			 cimag(cmask1[index_here])*cimag(cmask2[index_here]));
-- 
2.43.0


From b42b67cd8022e7a70578e06c268d34e212d51d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 24/27] fix: modes removed by an asymmetric cut stay out of
 flat-sky power spectra

---
 src/flatsky_utils.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index 9fdbe47..96f6a58 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -393,21 +393,23 @@ void fs_alm2cl(nmt_flatsky_info *fs,nmt_binning_scheme_flat *bin,
 	  if((ky>=lmn_y) && (ky<=lmx_y))
 	    continue;
 	  for(ix=0;ix<fs->nx;ix++) {
-	    int ix_here;
+	    int ix_here,iy_here;
 	    long index;
 	    flouble kmod,kx;
 	    if(2*ix<=fs->nx) {
 	      kx=ix*dkx;
 	      ix_here=ix;
+	      iy_here=iy;
 	    }
-	    else {
+	    else { //Fourier modes of real maps: F(-k)=F(k)^*
 	      kx=-(fs->nx-ix)*dkx;
 	      ix_here=fs->nx-ix;
+	      iy_here=(fs->ny-iy)%fs->ny;
 	    }
 	    if((kx>=lmn_x) && (kx<=lmx_x))
 	      continue;
 
-	    index=ix_here+((long)(fs->nx/2+1))*iy;
+	    index=ix_here+((long)(fs->nx/2+1))*iy_here;
 	    kmod=sqrt(kx*kx+ky*ky);
 	    ik=nmt_bins_flat_search_fast(bin,kmod,ik);
 	    if(ik>=0) {
-- 
2.43.0


From bf45a2a6c063940fa13d3812249c75806c80b562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 25/27] fix: keep multipoles shared by several bandpowers in
 workspace files

---
 src/nmt_io.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 5d22794..a3232ca 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -215,24 +215,24 @@ static void nmt_binning_scheme_tohdus(fitsfile *fptr,
 				      int *status)
 {
   int ii;
-  int nrows=b->ell_max+1;
+  int irow=0;
+  int nrows=0;
+  for(ii=0;ii<b->n_bands;ii++)
+    nrows+=b->nell_list[ii];
   int *bpws=my_malloc(nrows*sizeof(int));
   int *ells=my_malloc(nrows*sizeof(int));
-  flouble *weights=my_calloc(nrows,sizeof(flouble));
-  flouble *f_ell=my_calloc(nrows,sizeof(flouble));
-  for(ii=0;ii<nrows;ii++) {
-    bpws[ii]=-1;
-    ells[ii]=-1;
-  }
+  flouble *weights=my_malloc(nrows*sizeof(flouble));
+  flouble *f_ell=my_malloc(nrows*sizeof(flouble));
 
+  // One row per element (a multipole may be part of several bandpowers)
   for(ii=0;ii<b->n_bands;ii++) {
     int jj;
     for(jj=0;jj<b->nell_list[ii];jj++) {
-      int l=b->ell_list[ii][jj];
-      ells[l]=l;
-      bpws[l]=ii;
-      weights[l]=b->w_list[ii][jj];
-      f_ell[l]=b->f_ell[ii][jj];
+      bpws[irow]=ii;
+      ells[irow]=b->ell_list[ii][jj];
+      weights[irow]=b->w_list[ii][jj];
+      f_ell[irow]=b->f_ell[ii][jj];
+      irow++;
     }
   }
 
-- 
2.43.0


From b51f76d549e887c78e11d6a8dfda2b7bd02ddc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:49 +0000
Subject: [PATCH 26/27] fix: Fourier modes of the mask products at negative kx
 in flat-sky covariances

---
 src/nmt_covar_flat.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index 00fb64b..417b39b 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -98,17 +98,19 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
 	ky=-(fs->ny-iy1)*dky;
       for(ix1=0;ix1<fs->nx;ix1++) {
 	flouble kx,kmod,c,s;
-	int ix_here,index_here,index;
+	int ix_here,iy_here,index_here,index;
 	index=ix1+fs->nx*iy1;
 	if(2*ix1<=fs->nx) {
 	  kx=ix1*dkx;
 	  ix_here=ix1;
+	  iy_here=iy1;
 	}
-	else {
+	else { //Fourier modes of real maps: F(-k)=F(k)^*
 	  kx=-(fs->nx-ix1)*dkx;
 	  ix_here=fs->nx-ix1;
+	  iy_here=(fs->ny-iy1)%fs->ny;
 	}
-	index_here=ix_here+(fs->nx/2+1)*iy1;
+	index_here=ix_here+(fs->nx/2+1)*iy_here;
 	
 	cl_mask_1122[index]=(creal(cm_a1b1[index_here])*creal(cm_a2b2[index_here])+
 			     cimag(cm_a1b1[index_here])*cimag(cm_a2b2[index_here]));
-- 
2.43.0


From 4595da8b3a1090fbf2bf34c6f7195ea1f35c50e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:06 +0000
Subject: [PATCH 27/27] fix: notice failures to read a workspace file before
 using the sizes it should hold

---
 src/nmt_io.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index a3232ca..fe9702c 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -49,6 +49,8 @@ static void nmt_workspace_info_fromhdus(fitsfile *fptr,
     w->w2=0;
     *status=status_pre;
   }
+  if(*status)
+    return;
   long ii;
   long n_el=w->ncls*(w->lmax+1);
   long fpixel[2]={1,1};
@@ -148,6 +150,13 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus(fitsfile *fptr,
 		weights,&anynul,status);
   fits_read_col(fptr,TDOUBLE,4,1,1,nrows,&nulval,
 		f_ell,&anynul,status);
+  if(*status) {
+    free(bpws);
+    free(ells);
+    free(weights);
+    free(f_ell);
+    return NULL;
+  }
   b=nmt_bins_create((int)nrows,bpws,ells,weights,f_ell,ell_max);
   if(n_bands!=b->n_bands) {
     report_error(NMT_ERROR_INCONSISTENT,
@@ -458,6 +467,8 @@ static void nmt_workspace_flat_info_fromhdus(fitsfile *fptr,
   long ii;
   long naxes[2],fpixel[2]={1,1};
   fits_get_img_size(fptr,2,naxes,status);
+  if(*status)
+    return;
   w->coupling_matrix_unbinned=my_malloc(naxes[1]*sizeof(flouble *));
   for(ii=0;ii<naxes[1];ii++) {
     fpixel[1]=ii+1;
@@ -516,6 +527,10 @@ static nmt_flatsky_info *nmt_flatsky_info_fromhdus(fitsfile *fptr,
   double nulval;
   int anynul;
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status) {
+    free(fs);
+    return NULL;
+  }
   fs->n_ell=nrows;
   fs->ell_min=my_malloc(fs->n_ell*sizeof(flouble));
   fits_read_col(fptr,TDOUBLE,1,1,1,nrows,&nulval,fs->ell_min,&anynul,status);
@@ -554,6 +569,8 @@ static int *nmt_n_cells_fromhdus(fitsfile *fptr,
   int nulval,anynul;
   fits_movnam_hdu(fptr,BINARY_TBL,"N_CELLS",0,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return NULL;
   n_cells=my_malloc(nrows*sizeof(int));
   fits_read_col(fptr,TINT,1,1,1,nrows,&nulval,n_cells,&anynul,status);
 
@@ -614,6 +631,8 @@ static void nmt_flat_coupling_binned_fromhdus(fitsfile *fptr,
   //Non-GSL
   fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED",0,status);
   fits_get_img_size(fptr,2,naxes,status);
+  if(*status)
+    return;
   n_el=naxes[0];
   matrix=my_malloc(n_el*n_el*sizeof(flouble));
   fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0]*naxes[1],NULL,matrix,NULL,status);
@@ -627,6 +646,10 @@ static void nmt_flat_coupling_binned_fromhdus(fitsfile *fptr,
   //GSL
   fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED_GSL",0,status);
   fits_get_img_size(fptr,2,naxes,status);
+  if(*status) {
+    free(matrix);
+    return;
+  }
   if((naxes[0]!=n_el) || (naxes[1]!=n_el)) {
     report_error(NMT_ERROR_INCONSISTENT,
 		 "Inconsistent size for GSL binned MCM\n");
-- 
2.43.0

