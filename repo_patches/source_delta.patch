From 5cca8a9510a01a9a8a43b0f01aec955af1d082af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 01/27] fix: linear interpolation at the last tabulated k read
 past the end of the spectrum

---
 src/common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common.c b/src/common.c
index d44ed31..a8b003d 100644
--- a/src/common.c
+++ b/src/common.c
@@ -199,6 +199,7 @@ void find_pk(Pk pkin,histo_t* k,histo_t* pk,size_t nk,INTERPOL interpol)
 				size_t ikmax = MIN(end,ind+2);
 				pk[ik] = interpol_poly(k[ik],&(pkin.k[ikmin]),&(pkin.pk[ikmin]),ikmax-ikmin+1);
 			}
+			else if (ind==end) pk[ik] = pkin.pk[end]; //no next point to interpolate with
 			else pk[ik] = interpol_lin(k[ik],pkin.k[ind],pkin.k[ind+1],pkin.pk[ind],pkin.pk[ind+1]);
 		}
 	}
-- 
2.43.0


From 8fe7524ef2fe5f8fb806335f5b326d553a510010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 02/27] fix: set_spectra_B took a delta-delta spectrum for the
 delta-theta one

---
 src/spectrum_B.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index 5f46cba..061cf0c 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -62,7 +62,7 @@ void set_spectra_B(char* a_,char* b_, size_t nk, histo_t *k, histo_t *pk)
 	pk_ab.pk = pk;
 	FLAG a = set_flag(a_);
 	FLAG b = set_flag(b_);
-	if (((a==DELTA)&&(b=THETA))||((a==THETA)&&(b==DELTA))) {
+	if (((a==DELTA)&&(b==THETA))||((a==THETA)&&(b==DELTA))) {
 		if (verbose == INFO) printf(" - setting P_delta_theta\n");
 		pk_dt = pk_ab;
 	}
-- 
2.43.0


From 5e1d5fc0344260f32d6aff187725d90fc0ab8278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 03/27] fix: working arrays of run_spectrum_1loop and
 run_terms_B stayed registered after they were freed

---
 src/spectrum_1loop.c | 2 ++
 src/spectrum_B.c     | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spectrum_1loop.c b/src/spectrum_1loop.c
index 9b5cfc9..b017b28 100644
--- a/src/spectrum_1loop.c
+++ b/src/spectrum_1loop.c
@@ -129,9 +129,11 @@ void run_spectrum_1loop(char* a_,char* b_,size_t num_threads)
 	size_t nk = pk_1loop.nk;
 	histo_t *k = pk_1loop.k;
 	size_t size = sizeof(histo_t);
+	Terms1Loop terms_bak = terms_1loop;
 	set_terms_spectrum_1loop(nk,k,(histo_t *) calloc(nk,size),(histo_t *) calloc(nk,size),(histo_t *) calloc(nk,size),(histo_t *) calloc(nk,size),(histo_t *) calloc(nk,size));
 	run_terms_spectrum_1loop(a_,b_,num_threads);
 	spectrum_1loop(pk_1loop.pk);
 	free_terms_spectrum_1loop();
+	terms_1loop = terms_bak;
 }
 
diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index 061cf0c..e09ac88 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -110,6 +110,7 @@ void run_terms_B(size_t num_threads)
 	calc_running_sigmad2(terms_B.k,terms_B.sigmad2,terms_B.nk,uvcutoff);
 	
 	_Bool free_spectra = 0;
+	Pk pk_dt_bak = pk_dt, pk_tt_bak = pk_tt;
 	if ((pk_dt.nk==0)||(pk_tt.nk==0)) {
 		free_spectra = 1; 
 		run_spectra_B_1loop(num_threads);
@@ -138,6 +139,10 @@ void run_terms_B(size_t num_threads)
 			free_B();
 		}
 	}
-	if (free_spectra) free_spectra_B();
+	if (free_spectra) {
+		free_spectra_B();
+		pk_dt = pk_dt_bak;
+		pk_tt = pk_tt_bak;
+	}
 	if (verbose == INFO) timer(1);
 }
-- 
2.43.0


From a01a683b5c859a21e4c706ee2e5a26efb256fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 04/27] fix: the full integration range of the gamma3 and A
 2-loop integrals stuck to the first spectrum

---
 src/calc_pkcorr_from_A_2loop_II_III.c | 14 ++++++++------
 src/calc_pkcorr_from_gamma3.c         | 18 ++++++++++--------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/calc_pkcorr_from_A_2loop_II_III.c b/src/calc_pkcorr_from_A_2loop_II_III.c
index 1aa84b8..119b2db 100644
--- a/src/calc_pkcorr_from_A_2loop_II_III.c
+++ b/src/calc_pkcorr_from_A_2loop_II_III.c
@@ -16,7 +16,7 @@
 #define NINCREASE 700
 */
 
-static histo_t k,logqmin,logqmax;
+static histo_t k,qmin,qmax,logqmin,logqmax;
 static const Precision precision_q_default = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static Precision precision_q = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static INTERPOL interpol_pk_lin = POLY;
@@ -30,12 +30,14 @@ void set_precision_A_2loop_II_III_q(histo_t min_,histo_t max_,char* interpol_)
 
 void init_A_2loop_II_III()
 {
-	if ((precision_q.min<=0.)||(precision_q.max<=0.)) {
-		precision_q.min = pk_lin.k[0];
-		precision_q.max = pk_lin.k[pk_lin.nk-1];
+	qmin = precision_q.min;
+	qmax = precision_q.max;
+	if ((qmin<=0.)||(qmax<=0.)) {
+		qmin = pk_lin.k[0];
+		qmax = pk_lin.k[pk_lin.nk-1];
 	}
-	logqmin = my_log(precision_q.min);
-	logqmax = my_log(precision_q.max);
+	logqmin = my_log(qmin);
+	logqmax = my_log(qmax);
 	get_precision_bispectrum_1loop_pk_lin(&interpol_pk_lin);
 	get_running_uvcutoff_bispectrum_1loop(&uvcutoff);
 }
diff --git a/src/calc_pkcorr_from_gamma3.c b/src/calc_pkcorr_from_gamma3.c
index b568d63..3c824a8 100644
--- a/src/calc_pkcorr_from_gamma3.c
+++ b/src/calc_pkcorr_from_gamma3.c
@@ -6,7 +6,7 @@
 #include "common.h"
 #include "kernels.h"
 
-static histo_t k,logqmin,logqmax;
+static histo_t k,qmin,qmax,logqmin,logqmax;
 static const Precision precision_q_default = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static Precision precision_q = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static FLAG a,b;
@@ -19,12 +19,14 @@ void set_precision_gamma3_tree_q(histo_t min_,histo_t max_,char* interpol_)
 
 void init_gamma3_tree()
 {
-	if ((precision_q.min<=0.)||(precision_q.max<=0.)) {
-		precision_q.min = pk_lin.k[0];
-		precision_q.max = pk_lin.k[pk_lin.nk-1];
+	qmin = precision_q.min;
+	qmax = precision_q.max;
+	if ((qmin<=0.)||(qmax<=0.)) {
+		qmin = pk_lin.k[0];
+		qmax = pk_lin.k[pk_lin.nk-1];
 	}
-	logqmin = my_log(precision_q.min);
-	logqmax = my_log(precision_q.max);
+	logqmin = my_log(qmin);
+	logqmax = my_log(qmax);
 }
 
 void free_gamma3_tree() {}
@@ -63,7 +65,7 @@ static void kernel_pk_gamma3_tree(const int *ndim, const double xx[],const int *
 	histo_t prod_q_kp = qq[0]*kp[0] + qq[1]*kp[1] + qq[2]*kp[2];
 	
 	ff[0] = 0.;
-	if ((k_p_q>=precision_q.min)&&(k_p_q<=precision_q.max)&&(prod_q_kp<=0.5*k_p*k_p)) {
+	if ((k_p_q>=qmin)&&(k_p_q<=qmax)&&(prod_q_kp<=0.5*k_p*k_p)) {
 		histo_t pk_p,pk_q,pk_kpq;
 		find_pk_lin(&p,&pk_p,1,precision_q.interpol);
 		find_pk_lin(&q,&pk_q,1,precision_q.interpol);
@@ -134,7 +136,7 @@ static int kernel_pk_gamma3_tree(const int *ndim, const double xx[],const int *n
 	histo_t prod_q_kp = qq[0]*kp[0] + qq[1]*kp[1] + qq[2]*kp[2];
 	
 	ff[0] = 0.;
-	if ((k_p_q>=precision_q.min)&&(k_p_q<=precision_q.max)&&(prod_q_kp<=0.5*k_p*k_p)) {
+	if ((k_p_q>=qmin)&&(k_p_q<=qmax)&&(prod_q_kp<=0.5*k_p*k_p)) {
 		histo_t pk_p,pk_q,pk_kpq;
 		find_pk_lin(&p,&pk_p,1,precision_q.interpol);
 		find_pk_lin(&q,&pk_q,1,precision_q.interpol);
-- 
2.43.0


From 3e7cd1a360e2056f79ef64bdf0b402f10e3b12f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 05/27] fix: all threads wrote the spectra of the B term
 without synchronisation

---
 src/calc_pkcorr_from_B.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calc_pkcorr_from_B.c b/src/calc_pkcorr_from_B.c
index 99f0a1c..957d2ec 100644
--- a/src/calc_pkcorr_from_B.c
+++ b/src/calc_pkcorr_from_B.c
@@ -13,7 +13,7 @@
 static Pk pk_dt,pk_tt;
 static GaussLegendreQ gauss_legendre_q;
 static GaussLegendreMu gauss_legendre_mu;
-#pragma omp threadprivate(gauss_legendre_q,gauss_legendre_mu)
+#pragma omp threadprivate(pk_dt,pk_tt,gauss_legendre_q,gauss_legendre_mu)
 static const Precision precision_q_default = {.n=600,.min=5e-4,.max=10.,.interpol=POLY};
 static Precision precision_q = {.n=600,.min=5e-4,.max=10.,.interpol=POLY};
 static const Precision precision_mu_default = {.n=10,.min=-1.,.max=1.,.interpol=POLY};
-- 
2.43.0


From 72f971ab6b4fb83dcbd3b52dad7a45b1d1bb4c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 06/27] fix: print_k read outside an empty k-output array

---
 src/regpt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regpt.c b/src/regpt.c
index 267c8f3..3ada97e 100644
--- a/src/regpt.c
+++ b/src/regpt.c
@@ -40,7 +40,7 @@ void print_k(histo_t *k,size_t nk)
 {
 	printf("*** k-output\n");
 	printf(" - #modes: %zu\n",nk);
-	printf(" - range: %.3g < k < %.3g\n",k[0],k[nk-1]);
+	if (nk>0) printf(" - range: %.3g < k < %.3g\n",k[0],k[nk-1]);
 }
 
 void print_flags(FLAG a,FLAG b)
-- 
2.43.0


From 7ec4bc8129e981f221294ebadadaaee7606637bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 07/27] fix: the reported progress ran past 100 percent for
 short k-output arrays

---
 src/spectrum_1loop.c      | 2 +-
 src/spectrum_2loop.c      | 4 ++--
 src/spectrum_A_1loop.c    | 2 +-
 src/spectrum_A_2loop.c    | 4 ++--
 src/spectrum_B.c          | 2 +-
 src/spectrum_bias_1loop.c | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/spectrum_1loop.c b/src/spectrum_1loop.c
index b017b28..53e5b5b 100644
--- a/src/spectrum_1loop.c
+++ b/src/spectrum_1loop.c
@@ -85,7 +85,7 @@ void run_terms_spectrum_1loop(char* a_,char* b_,size_t num_threads)
 		init_gamma2_tree();
 #pragma omp for schedule(static)
 		for (ik=0;ik<terms_1loop.nk;ik++) {
-			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation done at %zu percent\n",ik*STEP_VERBOSE/step_verbose);
+			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation done at %zu percent\n",ik*100/terms_1loop.nk);
 			histo_t k = terms_1loop.k[ik];
 			terms_1loop.gamma1a_1loop[ik] = gamma1_1loop(a,k);
 			if (b==a) terms_1loop.gamma1b_1loop[ik] = terms_1loop.gamma1a_1loop[ik];
diff --git a/src/spectrum_2loop.c b/src/spectrum_2loop.c
index ff55a00..74e86db 100644
--- a/src/spectrum_2loop.c
+++ b/src/spectrum_2loop.c
@@ -82,7 +82,7 @@ void run_terms_spectrum_2loop(char* a_,char* b_,size_t num_threads)
 		init_gamma2t_1loop();
 #pragma omp for schedule(static)
 		for (ik=0;ik<terms_2loop.nk;ik++) {
-			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation I done at %zu percent\n",ik*STEP_VERBOSE/step_verbose);
+			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation I done at %zu percent\n",ik*100/terms_2loop.nk);
 			histo_t k = terms_2loop.k[ik];
 			calc_pk_gamma1_2loop(a,b,k,&(terms_2loop.gamma1a_1loop[ik]),&(terms_2loop.gamma1a_2loop[ik]),&(terms_2loop.gamma1b_1loop[ik]),&(terms_2loop.gamma1b_2loop[ik]));
 			calc_pk_gamma2_1loop(a,b,k,&(terms_2loop.pk_gamma2_tree_tree[ik]),&(terms_2loop.pk_gamma2_tree_1loop[ik]),&(terms_2loop.pk_gamma2_1loop_1loop[ik]));
@@ -98,7 +98,7 @@ void run_terms_spectrum_2loop(char* a_,char* b_,size_t num_threads)
 	}
 	init_gamma3_tree();
 	for (ik=0;ik<terms_2loop.nk;ik++) {
-		if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation II done at %zu percent\n",ik*STEP_VERBOSE/step_verbose);
+		if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation II done at %zu percent\n",ik*100/terms_2loop.nk);
 		calc_pk_gamma3_tree(a,b,terms_2loop.k[ik],&(terms_2loop.pk_gamma3_tree[ik]));
 	}
 	free_gamma3_tree();
diff --git a/src/spectrum_A_1loop.c b/src/spectrum_A_1loop.c
index 8320cd8..026ad25 100644
--- a/src/spectrum_A_1loop.c
+++ b/src/spectrum_A_1loop.c
@@ -56,7 +56,7 @@ void run_terms_A_1loop(size_t num_threads)
 #pragma omp for schedule(static)
 		for (ik=0;ik<terms_A.nk;ik++) {
 			histo_t k = terms_A.k[ik];
-			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation done at %zu percent\n",ik*STEP_VERBOSE/step_verbose);
+			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation done at %zu percent\n",ik*100/terms_A.nk);
 			calc_pk_A_1loop(k,&(terms_A.A[ik*NCOMP]));
 		}
 #pragma omp critical
diff --git a/src/spectrum_A_2loop.c b/src/spectrum_A_2loop.c
index fb99862..a6c79d3 100644
--- a/src/spectrum_A_2loop.c
+++ b/src/spectrum_A_2loop.c
@@ -54,7 +54,7 @@ void run_terms_A_2loop(size_t num_threads)
 		init_A_2loop_I();
 #pragma omp for schedule(static)
 		for (ik=0;ik<terms_A.nk;ik++) {
-			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation I done at %zu percent\n",ik*STEP_VERBOSE/step_verbose);
+			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation I done at %zu percent\n",ik*100/terms_A.nk);
 			histo_t k = terms_A.k[ik];
 			calc_pk_A_2loop_I(k,pk_A);
 			terms_A.A[ik*NCOMP] = pk_A[0] + pk_A[6];								//pk_A111 + pk_tA111, mu^2 * f
@@ -73,7 +73,7 @@ void run_terms_A_2loop(size_t num_threads)
 	}
 	init_A_2loop_II_III();
 	for (ik=0;ik<terms_A.nk;ik++) {
-			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation II done at %zu percent\n",ik*STEP_VERBOSE/step_verbose);
+			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation II done at %zu percent\n",ik*100/terms_A.nk);
 		histo_t k = terms_A.k[ik];
 		calc_pk_A_2loop_II_III(k,pk_A);
 		terms_A.A[ik*NCOMP] += pk_A[0] + pk_A[6];									//pk_A111 + pk_tA111, mu^2 * f
diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index e09ac88..ad74a6c 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -122,7 +122,7 @@ void run_terms_B(size_t num_threads)
 #pragma omp for schedule(static)
 		for (ik=0;ik<terms_B.nk;ik++) {
 			histo_t k = terms_B.k[ik];
-			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation done at %zu percent\n",ik*STEP_VERBOSE/step_verbose);
+			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation done at %zu percent\n",ik*100/terms_B.nk);
 			calc_pk_B(k,pk_B);
 			terms_B.B[ik*NCOMP] = pk_B[0];					//pk_B111, mu^2 * f^2
 			terms_B.B[ik*NCOMP+1] = - (pk_B[1] + pk_B[2]);	//pk_B112 + pk_B121, mu^2 * f^3 
diff --git a/src/spectrum_bias_1loop.c b/src/spectrum_bias_1loop.c
index 401ecd9..dfc2c32 100644
--- a/src/spectrum_bias_1loop.c
+++ b/src/spectrum_bias_1loop.c
@@ -95,7 +95,7 @@ void run_terms_bias_1loop(size_t num_threads)
 #pragma omp for schedule(static)
 		for (ik=0;ik<terms_bias.nk;ik++) {
 			histo_t k = terms_bias.k[ik];
-			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation done at %zu percent\n",ik*STEP_VERBOSE/step_verbose);
+			if ((verbose == INFO) && (ik % step_verbose == 0)) printf(" - computation done at %zu percent\n",ik*100/terms_bias.nk);
 			terms_bias.pk_b2d[ik] = calc_pk_bias_1loop(DELTA,k,kernel_b2,1);
 			//terms_bias.pk_b2d[ik] = calc_pk_bias_1loop(DELTA,k,kernel_b2,0);
 			terms_bias.pk_bs2d[ik] = calc_pk_bias_1loop(DELTA,k,kernel_bs2,1);
-- 
2.43.0


From 62b9a5ae0151adaebf56fa29a4e1d71237632e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 08/27] fix: every new instance reset the verbosity of the
 library to info

---
 pyregpt/pyregpt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 2bdfe17..9e7d051 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -192,12 +192,13 @@ class PyRegPT(Terms):
 
     C_TYPE = ctypes.c_double
     _path_lib = os.path.join(utils.lib_dir, 'regpt.so')
+    _verbose = 'info'  # of the library, hence common to all instances
 
     def __init__(self, *args, **kwargs):
 
         super(PyRegPT, self).__init__(*args, **kwargs)
         self.regpt = ctypes.CDLL(self._path_lib, mode=ctypes.RTLD_LOCAL)
-        self.set_verbosity(self._verbose if hasattr(self, '_verbose') else 'info')
+        self.set_verbosity(self._verbose)
 
     def nodes_weights_gauss_legendre(self, xmin, xmax, nx):
 
@@ -247,7 +248,7 @@ class PyRegPT(Terms):
     def set_verbosity(self, mode='info'):
         self.regpt.set_verbosity.argtypes = (ctypes.c_char_p,)
         self.regpt.set_verbosity(mode.encode('utf-8'))
-        self._verbose = mode
+        PyRegPT._verbose = mode
 
     def set_spectrum_lin(self, spectrum_lin):
 
-- 
2.43.0


From e29723d0af3bcc02b1f8974a98e3192ce5c4712f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 09/27] fix: precision groups all_q and all_mu, hence clear(),
 left out the A term at 1 loop

---
 pyregpt/pyregpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 9e7d051..0ddd3b4 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -271,11 +271,11 @@ class PyRegPT(Terms):
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_q':
-            for calculation in ['spectrum_2loop_q', 'bias_1loop_q', 'A_2loop_q', 'B_q']:
+            for calculation in ['spectrum_2loop_q', 'bias_1loop_q', 'A_1loop_q', 'A_2loop_q', 'B_q']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_mu':
-            for calculation in ['gamma2_tree_mu', 'bias_1loop_mu', 'A_2loop_I_mu', 'B_mu']:
+            for calculation in ['gamma2_tree_mu', 'bias_1loop_mu', 'A_1loop_mu', 'A_2loop_I_mu', 'B_mu']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'spectrum_1loop_q':
-- 
2.43.0


From 6769d97b255fae2ed3583dc9da097f2906f2a23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 10/27] fix: precision group all_pklin named settings that do
 not exist, and clear() left them out

---
 pyregpt/pyregpt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 0ddd3b4..3f262d6 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -294,7 +294,7 @@ class PyRegPT(Terms):
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_pklin':
-            for calculation in ['spectrum_1loop_pk_lin', 'spectrum_2loop_pk_lin', 'bias_pk_lin', 'bispectrum_1loop_pk_lin', 'spectrum_A_2loop_pklin', 'spectrum_B_2loop_pklin']:
+            for calculation in ['spectrum_1loop_pk_lin', 'spectrum_2loop_pk_lin', 'bias_1loop_pk_lin', 'bispectrum_1loop_pk_lin', 'A_1loop_pk_lin', 'A_2loop_pk_lin', 'B_pk_lin']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         func = getattr(self.regpt, 'set_precision_' + calculation)
@@ -334,6 +334,7 @@ class PyRegPT(Terms):
     def clear(self):
         #To reset all precision settings
         self.set_precision(calculation='all', n=0, min=1., max=-1., interpol='test')
+        self.set_precision(calculation='all_pklin', interpol='poly')
         self.set_running_uvcutoff(calculation='all')
         self.set_verbosity()
 
-- 
2.43.0


From 0fc95bb388df26c3ee8dc955a2c5d60fb6df2336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 11/27] fix: set_running_uvcutoff('all'), hence clear(), left
 out the A and B terms

---
 pyregpt/pyregpt.py     | 2 +-
 src/spectrum_A_1loop.c | 2 +-
 src/spectrum_A_2loop.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 3f262d6..e14596b 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -314,7 +314,7 @@ class PyRegPT(Terms):
     def set_running_uvcutoff(self, calculation='all', uvcutoff=0.5):
 
         if calculation == 'all':
-            for calculation in ['spectrum_1loop', 'spectrum_2loop', 'bispectrum_1loop', 'bias_1loop']:
+            for calculation in ['spectrum_1loop', 'spectrum_2loop', 'bispectrum_1loop', 'bias_1loop', 'A_1loop', 'A_2loop', 'B']:
                 self.set_running_uvcutoff(calculation, uvcutoff=uvcutoff)
             return
         func = getattr(self.regpt, 'set_running_uvcutoff_' + calculation)
diff --git a/src/spectrum_A_1loop.c b/src/spectrum_A_1loop.c
index 026ad25..b3804f6 100644
--- a/src/spectrum_A_1loop.c
+++ b/src/spectrum_A_1loop.c
@@ -21,7 +21,7 @@ void set_precision_A_1loop_pk_lin(char* interpol_)
 	set_interpol(&interpol_pk_lin,interpol_);
 }
 
-void set_precision_A_1loop_sigmad2(histo_t uvcutoff_)
+void set_running_uvcutoff_A_1loop(histo_t uvcutoff_)
 {
 	uvcutoff = uvcutoff_;
 }
diff --git a/src/spectrum_A_2loop.c b/src/spectrum_A_2loop.c
index a6c79d3..99f2c2a 100644
--- a/src/spectrum_A_2loop.c
+++ b/src/spectrum_A_2loop.c
@@ -19,7 +19,7 @@ void set_precision_A_2loop_pk_lin(char* interpol_)
 	set_interpol(&interpol_pk_lin,interpol_);
 }
 
-void set_precision_A_2loop_sigmad2(histo_t uvcutoff_)
+void set_running_uvcutoff_A_2loop(histo_t uvcutoff_)
 {
 	uvcutoff = uvcutoff_;
 }
-- 
2.43.0


From e1c9dc51689a1a92d675e15ae0b34ebaecc054c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 12/27] fix: instances ran on the spectrum and the arrays,
 possibly freed, of other instances

---
 pyregpt/pyregpt.py | 82 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 61 insertions(+), 21 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index e14596b..1f6d798 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -193,6 +193,7 @@ class PyRegPT(Terms):
     C_TYPE = ctypes.c_double
     _path_lib = os.path.join(utils.lib_dir, 'regpt.so')
     _verbose = 'info'  # of the library, hence common to all instances
+    _arrays = {}  # arrays the library works on, by setter: it only keeps their addresses
 
     def __init__(self, *args, **kwargs):
 
@@ -229,6 +230,7 @@ class PyRegPT(Terms):
 
         k = np.asarray(k, dtype=self.C_TYPE).flatten()
         pk = np.zeros_like(k)
+        self._set_spectrum_lin()
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),))
         self.regpt.find_pk_lin.argtypes = (pointer, pointer, ctypes.c_size_t, ctypes.c_size_t)
         self.regpt.find_pk_lin(k, pk, len(k), 1 if interpol == 'poly' else 0)
@@ -239,6 +241,7 @@ class PyRegPT(Terms):
 
         k = np.asarray(k, dtype=self.C_TYPE).flatten()
         sigmad2 = np.zeros_like(k)
+        self._set_spectrum_lin()
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),))
         self.regpt.calc_running_sigmad2.argtypes = (pointer, pointer, ctypes.c_size_t, self.C_TYPE)
         self.regpt.calc_running_sigmad2(k, sigmad2, len(k), uvcutoff)
@@ -253,9 +256,37 @@ class PyRegPT(Terms):
     def set_spectrum_lin(self, spectrum_lin):
 
         self.spectrum_lin = spectrum_lin
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
-        self.regpt.set_pk_lin.argtypes = (pointer, pointer, ctypes.c_size_t)
-        self.regpt.set_pk_lin(self.spectrum_lin.k, self.spectrum_lin['pk'], self.spectrum_lin.size)
+        self._set_spectrum_lin()
+
+    def _set_spectrum_lin(self):
+        # Have the library use the linear power spectrum of this instance, or the last one set if it has none
+        if not hasattr(self, 'spectrum_lin'):
+            if 'set_pk_lin' not in self._arrays: raise ValueError('Linear power spectrum has not been set.')
+            return
+        arrays = [self.spectrum_lin.k, self.spectrum_lin['pk']]
+        if not self._has_arrays('set_pk_lin', arrays):
+            pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,), flags='C_CONTIGUOUS')
+            self.regpt.set_pk_lin.argtypes = (pointer, pointer, ctypes.c_size_t)
+            self.regpt.set_pk_lin(*arrays, self.spectrum_lin.size)
+            self._arrays['set_pk_lin'] = arrays
+
+    def _set_terms(self):
+        # Have the library use the columns of this instance
+        arrays = self.tolist()
+        if not self._has_arrays(self.SETTER, arrays):
+            pointers = []
+            for key, array in zip(self, arrays):
+                shape = (self.size,) + tuple(self.SHAPE.get(key, ()))
+                if array.ndim == 1: shape = (int(np.prod(shape)),)
+                pointers.append(ctypeslib.ndpointer(dtype=self.C_TYPE, shape=shape, flags='C_CONTIGUOUS'))
+            func = getattr(self.regpt, self.SETTER)
+            func.argtypes = (ctypes.c_size_t,) + tuple(pointers)
+            func(self.size, *arrays)
+            self._arrays[self.SETTER] = arrays
+
+    def _has_arrays(self, setter, arrays):
+        current = self._arrays.get(setter, [])
+        return len(current) == len(arrays) and all(c is a for c, a in zip(current, arrays))
 
     def set_pk_lin(self, k, pk):
 
@@ -341,18 +372,19 @@ class PyRegPT(Terms):
 
 class Spectrum1Loop(PyRegPT):
 
+    SETTER = 'set_terms_spectrum_1loop'
     FIELDS = ['k', 'pk_lin', 'sigmad2', 'gamma1a_1loop', 'gamma1b_1loop', 'pk_gamma2_tree_tree']
     SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'gamma1a_1loop': 1, 'gamma1b_1loop': 1, 'pk_gamma2_tree_tree': 2}
 
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
-        self.regpt.set_terms_spectrum_1loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
-        self.regpt.set_terms_spectrum_1loop(self.size, *self.tolist())
+        self._set_terms()
 
     def run_terms(self, a='delta', b='delta', nthreads=8):
 
+        self._set_spectrum_lin()
+        self._set_terms()
         self.regpt.run_terms_spectrum_1loop.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
         self.regpt.run_terms_spectrum_1loop(a.encode('utf-8'), b.encode('utf-8'), nthreads)
 
@@ -375,18 +407,19 @@ class Spectrum1Loop(PyRegPT):
 
 class Spectrum2Loop(Spectrum1Loop):
 
+    SETTER = 'set_terms_spectrum_2loop'
     FIELDS = ['k', 'pk_lin', 'sigmad2', 'gamma1a_1loop', 'gamma1a_2loop', 'gamma1b_1loop', 'gamma1b_2loop', 'pk_gamma2_tree_tree', 'pk_gamma2_tree_1loop', 'pk_gamma2_1loop_1loop', 'pk_gamma3_tree']
     SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'gamma1a_1loop': 1, 'gamma1a_2loop': 2, 'gamma1b_1loop': 1, 'gamma1b_2loop': 2, 'pk_gamma2_tree_tree': 2, 'pk_gamma2_tree_1loop': 3, 'pk_gamma2_1loop_1loop': 4, 'pk_gamma3_tree': 3}
 
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
-        self.regpt.set_terms_spectrum_2loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
-        self.regpt.set_terms_spectrum_2loop(self.size, *self.tolist())
+        self._set_terms()
 
     def run_terms(self, a='delta', b='delta', nthreads=8):
 
+        self._set_spectrum_lin()
+        self._set_terms()
         self.regpt.run_terms_spectrum_2loop.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
         self.regpt.run_terms_spectrum_2loop(a.encode('utf-8'), b.encode('utf-8'), nthreads)
 
@@ -407,6 +440,7 @@ class Spectrum2Loop(Spectrum1Loop):
 
 class Bias1Loop(PyRegPT):
 
+    SETTER = 'set_terms_bias_1loop'
     FIELDS = ['k', 'pk_lin', 'sigmad2', 'pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22', 'sigma3sq']
     SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2, 'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 2}
 
@@ -461,12 +495,12 @@ class Bias1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
-        self.regpt.set_terms_bias_1loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
-        self.regpt.set_terms_bias_1loop(self.size, *self.tolist())
+        self._set_terms()
 
     def run_terms(self, nthreads=8):
 
+        self._set_spectrum_lin()
+        self._set_terms()
         self.regpt.run_terms_bias_1loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_bias_1loop(nthreads)
 
@@ -481,6 +515,7 @@ class Bias1Loop(PyRegPT):
 
 class A1Loop(PyRegPT):
 
+    SETTER = 'set_terms_A_1loop'
     FIELDS = ['k', 'pk_lin', 'sigmad2', 'pk']
     SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'pk': 2}
     SHAPE = {'pk': (5,)}
@@ -496,12 +531,12 @@ class A1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
-        self.regpt.set_terms_A_1loop.argtypes = (ctypes.c_size_t,) + tuple(pointers)
-        self.regpt.set_terms_A_1loop(self.size, *self.tolist())
+        self._set_terms()
 
     def run_terms(self, nthreads=8):
 
+        self._set_spectrum_lin()
+        self._set_terms()
         self.regpt.run_terms_A_1loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_A_1loop(nthreads)
         self.reshape()
@@ -521,22 +556,25 @@ class A1Loop(PyRegPT):
 
 class A2Loop(A1Loop):
 
+    SETTER = 'set_terms_A_2loop'
+
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
-        self.regpt.set_terms_A_2loop.argtypes = (ctypes.c_size_t,) + tuple(pointers)
-        self.regpt.set_terms_A_2loop(self.size, *self.tolist())
+        self._set_terms()
         self.reshape()
 
     def run_terms(self, nthreads=8):
 
+        self._set_spectrum_lin()
+        self._set_terms()
         self.regpt.run_terms_A_2loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_A_2loop(nthreads)
 
 
 class B1Loop(PyRegPT):
 
+    SETTER = 'set_terms_B'
     FIELDS = ['k', 'pk_lin', 'sigmad2', 'pk']
     SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'pk': 2}
     SHAPE = {'pk': (9,)}
@@ -552,13 +590,13 @@ class B1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
-        self.regpt.set_terms_B.argtypes = (ctypes.c_size_t,) + tuple(pointers)
-        self.regpt.set_terms_B(self.size, *self.tolist())
+        self._set_terms()
         self.reshape()
 
     def run_terms(self, nthreads=8):
 
+        self._set_spectrum_lin()
+        self._set_terms()
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
         self.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, pointer, pointer)
         self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, self.spectrum_lin['pk'])
@@ -589,6 +627,8 @@ class B2Loop(B1Loop):
 
     def run_terms(self, nthreads=8):
 
+        self._set_spectrum_lin()
+        self._set_terms()
         self.spectrum_1loop_dt = Spectrum1Loop()
         self.spectrum_1loop_dt.set_terms(self.spectrum_lin.k)
         self.spectrum_1loop_dt.run_terms(a='delta', b='theta', nthreads=nthreads)
-- 
2.43.0


From 68ab36e81b1e31a63dfd44690dd890a9b621687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 13/27] fix: interpol_poly read non-contiguous tables as if
 they were contiguous

---
 pyregpt/pyregpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 1f6d798..aa4d930 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -215,6 +215,7 @@ class PyRegPT(Terms):
 
         nx = len(tabx)
         assert nx == len(taby)
+        tabx, taby = (np.ascontiguousarray(tab, dtype=self.C_TYPE) for tab in (tabx, taby))
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(nx,))
         self.regpt.interpol_poly.argtypes = (self.C_TYPE, pointer, pointer, ctypes.c_size_t)
         self.regpt.interpol_poly.restype = self.C_TYPE
-- 
2.43.0


From 834dd4023c3f7bbb52e2aef37229e6446662f23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 14/27] fix: set_precision('spectrum_1loop_q') raised after
 having changed the settings

---
 pyregpt/pyregpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index aa4d930..7c1908e 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -313,6 +313,7 @@ class PyRegPT(Terms):
         if calculation == 'spectrum_1loop_q':
             for calculation in ['gamma1_1loop_q', 'gamma2_tree_q']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
+            return
         if calculation == 'spectrum_2loop_q':
             for calculation in ['gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2_1loop_q', 'gamma3_tree_q']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
-- 
2.43.0


From 0cbecb2c5ea6bc1de691063fedd53a3a42a71976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 15/27] fix: an instance kept the linear spectrum that
 set_spectrum_lin had refused

---
 pyregpt/pyregpt.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 7c1908e..61930cf 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -256,19 +256,20 @@ class PyRegPT(Terms):
 
     def set_spectrum_lin(self, spectrum_lin):
 
+        self._bind_spectrum_lin(spectrum_lin)
         self.spectrum_lin = spectrum_lin
-        self._set_spectrum_lin()
 
     def _set_spectrum_lin(self):
         # Have the library use the linear power spectrum of this instance, or the last one set if it has none
-        if not hasattr(self, 'spectrum_lin'):
-            if 'set_pk_lin' not in self._arrays: raise ValueError('Linear power spectrum has not been set.')
-            return
-        arrays = [self.spectrum_lin.k, self.spectrum_lin['pk']]
+        if hasattr(self, 'spectrum_lin'): self._bind_spectrum_lin(self.spectrum_lin)
+        elif 'set_pk_lin' not in self._arrays: raise ValueError('Linear power spectrum has not been set.')
+
+    def _bind_spectrum_lin(self, spectrum_lin):
+        arrays = [spectrum_lin.k, spectrum_lin['pk']]
         if not self._has_arrays('set_pk_lin', arrays):
-            pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,), flags='C_CONTIGUOUS')
+            pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(spectrum_lin.size,), flags='C_CONTIGUOUS')
             self.regpt.set_pk_lin.argtypes = (pointer, pointer, ctypes.c_size_t)
-            self.regpt.set_pk_lin(*arrays, self.spectrum_lin.size)
+            self.regpt.set_pk_lin(*arrays, spectrum_lin.size)
             self._arrays['set_pk_lin'] = arrays
 
     def _set_terms(self):
-- 
2.43.0


From 807b9dc138293ea1a730c9a37245ed70291d15e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 16/27] fix: set_terms left columns of different lengths when
 an allocation failed

---
 pyregpt/pyregpt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 61930cf..a529034 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -115,11 +115,13 @@ class Terms(object):
         for key in self.fields: self[key] *= scale**(2 * self.SCALE[key])
 
     def zeros(self, k, dtype=ctypes.c_double):
-        self['k'] = np.asarray(k, dtype=dtype).flatten()
+        columns = {'k': np.asarray(k, dtype=dtype).flatten()}
+        size = len(columns['k'])
         for key in self.FIELDS:
             if key == 'k': continue
-            if key in self.SHAPE: self[key] = np.zeros((self.size,) + tuple(self.SHAPE[key]), dtype=self.C_TYPE).flatten()
-            else: self[key] = np.zeros((self.size,), dtype=self.C_TYPE)
+            if key in self.SHAPE: columns[key] = np.zeros((size,) + tuple(self.SHAPE[key]), dtype=self.C_TYPE).flatten()
+            else: columns[key] = np.zeros((size,), dtype=self.C_TYPE)
+        self.columns.update(columns)
 
     def reshape(self):
         for key in self.FIELDS:
-- 
2.43.0


From e727a50585f140338e035a5bc86d757985272052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 17/27] fix: pad_k failed halfway for the A and B terms and
 without padding at the end, leaving columns of different lengths

---
 pyregpt/pyregpt.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index a529034..7a61053 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -99,14 +99,16 @@ class Terms(object):
     def pad_k(self, k, mode='constant', constant_values=0., **kwargs):
         pad_start = np.sum(k < self.k[0])
         pad_end = np.sum(k > self.k[-1])
+        size = self.size + pad_start
+        columns = {}
         for key in self.FIELDS:
-            pad_width = ((0, 0)) * (self[key].ndim - 1) + ((pad_start, pad_end))
-            self[key] = np.pad(self[key], pad_width=pad_width, mode=mode, constant_values=constant_values)
-        self['k'][:pad_start] = k[:pad_start]
-        self['k'][-pad_end:] = k[-pad_end:]
-        for key in kwargs:
-            self[key][:pad_start] = kwargs[key][:pad_start]
-            self[key][-pad_end:] = kwargs[key][-pad_end:]
+            column = self[key].reshape((self.size,) + tuple(self.SHAPE.get(key, ())))
+            pad_width = ((pad_start, pad_end),) + ((0, 0),) * (column.ndim - 1)
+            columns[key] = np.pad(column, pad_width=pad_width, mode=mode, constant_values=constant_values)
+        for key, value in dict(kwargs, k=k).items():
+            columns[key][:pad_start] = value[:pad_start]
+            columns[key][size:] = value[len(value) - pad_end:]
+        self.columns.update(columns)
 
     def nan_to_zero(self):
         for key in self.FIELDS: self[key][np.isnan(self[key])] = 0.
@@ -363,9 +365,14 @@ class PyRegPT(Terms):
         return new
 
     def pad_k(self, k, mode='constant', constant_values=0., interpol='poly'):
-        super(PyRegPT, self).pad_k(k, mode=mode, constant_values=constant_values)
-        if 'pk_lin' in self.FIELDS: self['pk_lin'] = self.find_pk_lin(self.k, interpol=interpol)
-        if 'sigmad2' in self.FIELDS: self['sigmad2'] = self.calc_running_sigmad2(self.k)
+        columns = self.columns.copy()
+        try:
+            super(PyRegPT, self).pad_k(k, mode=mode, constant_values=constant_values)
+            if 'pk_lin' in self.FIELDS: self['pk_lin'] = self.find_pk_lin(self.k, interpol=interpol)
+            if 'sigmad2' in self.FIELDS: self['sigmad2'] = self.calc_running_sigmad2(self.k)
+        except BaseException:
+            self.columns.update(columns)
+            raise
 
     def clear(self):
         #To reset all precision settings
-- 
2.43.0


From ff533483d09ec2dbacbf836afeff4045789aaf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 18/27] fix: run_terms_B left its working spectrum, freed
 afterwards, registered for run_spectrum_1loop

---
 src/common.h         | 2 ++
 src/spectrum_1loop.c | 5 +++++
 src/spectrum_B.c     | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/src/common.h b/src/common.h
index 013a56e..1d6879d 100644
--- a/src/common.h
+++ b/src/common.h
@@ -205,6 +205,8 @@ void calc_pk_B(histo_t k,histo_t* pk_B);
 
 void set_spectrum_1loop(size_t nk,histo_t* k,histo_t* pk);
 
+Pk get_spectrum_1loop();
+
 void run_spectrum_1loop(char* a_,char* b_,size_t num_threads);
 
 // bispectrum 1 loop
diff --git a/src/spectrum_1loop.c b/src/spectrum_1loop.c
index 53e5b5b..bd7ffc7 100644
--- a/src/spectrum_1loop.c
+++ b/src/spectrum_1loop.c
@@ -124,6 +124,11 @@ void set_spectrum_1loop(size_t nk,histo_t* k,histo_t* pk)
 	pk_1loop.pk = pk;	
 }
 
+Pk get_spectrum_1loop()
+{
+	return pk_1loop;
+}
+
 void run_spectrum_1loop(char* a_,char* b_,size_t num_threads)
 {
 	size_t nk = pk_1loop.nk;
diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index ad74a6c..159d89e 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -75,6 +75,7 @@ void set_spectra_B(char* a_,char* b_, size_t nk, histo_t *k, histo_t *pk)
 static void run_spectra_B_1loop(size_t num_threads)
 {
 	size_t size = sizeof(histo_t);
+	Pk pk_1loop_bak = get_spectrum_1loop();
 
 	pk_dt.nk = pk_lin.nk;
 	pk_dt.k = pk_lin.k;
@@ -89,6 +90,7 @@ static void run_spectra_B_1loop(size_t num_threads)
 	
 	set_spectrum_1loop(pk_tt.nk,pk_tt.k,pk_tt.pk);
 	run_spectrum_1loop("theta","theta",num_threads);
+	set_spectrum_1loop(pk_1loop_bak.nk,pk_1loop_bak.k,pk_1loop_bak.pk);
 }
 
 void free_spectra_B()
-- 
2.43.0


From 08496e809ca7231ba8568c4415da58922d9d05b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:58 +0000
Subject: [PATCH 19/27] fix: set_terms could fail for lack of memory after it
 had replaced the columns

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 7a61053..ed8949b 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -283,7 +283,7 @@ class PyRegPT(Terms):
             pointers = []
             for key, array in zip(self, arrays):
                 shape = (self.size,) + tuple(self.SHAPE.get(key, ()))
-                if array.ndim == 1: shape = (int(np.prod(shape)),)
+                if array.ndim == 1: shape = (functools.reduce(lambda x, y: x * y, shape),)
                 pointers.append(ctypeslib.ndpointer(dtype=self.C_TYPE, shape=shape, flags='C_CONTIGUOUS'))
             func = getattr(self.regpt, self.SETTER)
             func.argtypes = (ctypes.c_size_t,) + tuple(pointers)
-- 
2.43.0


From 370123d7d8eebc95c762b76f5210ad3bc2becb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 20/27] fix: run_terms returned as if all were well when
 wavenumbers had not been set

---
 pyregpt/pyregpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index ed8949b..9866781 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -291,8 +291,8 @@ class PyRegPT(Terms):
             self._arrays[self.SETTER] = arrays
 
     def _has_arrays(self, setter, arrays):
-        current = self._arrays.get(setter, [])
-        return len(current) == len(arrays) and all(c is a for c, a in zip(current, arrays))
+        current = self._arrays.get(setter)
+        return current is not None and len(current) == len(arrays) and all(c is a for c, a in zip(current, arrays))
 
     def set_pk_lin(self, k, pk):
 
-- 
2.43.0


From 4d82cf22c7f7e9cac37c51a154dae59592110901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:32 +0000
Subject: [PATCH 21/27] fix: an instance without a linear spectrum used the one
 last calculated with instead of the one last set

---
 pyregpt/pyregpt.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 9866781..b309bdc 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -197,6 +197,7 @@ class PyRegPT(Terms):
     C_TYPE = ctypes.c_double
     _path_lib = os.path.join(utils.lib_dir, 'regpt.so')
     _verbose = 'info'  # of the library, hence common to all instances
+    _last_spectrum_lin = None  # for the instances without one of their own
     _arrays = {}  # arrays the library works on, by setter: it only keeps their addresses
 
     def __init__(self, *args, **kwargs):
@@ -261,12 +262,13 @@ class PyRegPT(Terms):
     def set_spectrum_lin(self, spectrum_lin):
 
         self._bind_spectrum_lin(spectrum_lin)
-        self.spectrum_lin = spectrum_lin
+        self.spectrum_lin = PyRegPT._last_spectrum_lin = spectrum_lin
 
     def _set_spectrum_lin(self):
         # Have the library use the linear power spectrum of this instance, or the last one set if it has none
-        if hasattr(self, 'spectrum_lin'): self._bind_spectrum_lin(self.spectrum_lin)
-        elif 'set_pk_lin' not in self._arrays: raise ValueError('Linear power spectrum has not been set.')
+        spectrum_lin = getattr(self, 'spectrum_lin', self._last_spectrum_lin)
+        if spectrum_lin is None: raise ValueError('Linear power spectrum has not been set.')
+        self._bind_spectrum_lin(spectrum_lin)
 
     def _bind_spectrum_lin(self, spectrum_lin):
         arrays = [spectrum_lin.k, spectrum_lin['pk']]
@@ -642,10 +644,12 @@ class B2Loop(B1Loop):
         self._set_spectrum_lin()
         self._set_terms()
         self.spectrum_1loop_dt = Spectrum1Loop()
+        self.spectrum_1loop_dt.spectrum_lin = self.spectrum_lin
         self.spectrum_1loop_dt.set_terms(self.spectrum_lin.k)
         self.spectrum_1loop_dt.run_terms(a='delta', b='theta', nthreads=nthreads)
 
         self.spectrum_1loop_tt = Spectrum1Loop()
+        self.spectrum_1loop_tt.spectrum_lin = self.spectrum_lin
         self.spectrum_1loop_tt.set_terms(self.spectrum_lin.k)
         self.spectrum_1loop_tt.run_terms(a='theta', b='theta', nthreads=nthreads)
 
-- 
2.43.0


From eb470d117223cff19d8d340701cc6153ffeb7a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:28 +0000
Subject: [PATCH 22/27] fix: the debug dump of the B spectra read past the end
 of the shorter of the two

---
 src/spectrum_B.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index 159d89e..daa59cd 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -35,7 +35,10 @@ void write_spectra_B(char *fn)
 	fr=fopen(fn,"w");
 	if (fr==NULL) error_open_file(fn);
 	for (ik=0;ik<pk_dt.nk;ik++) {
-		fprintf(fr,"%f %f %f\n",pk_dt.k[ik],pk_dt.pk[ik],pk_tt.pk[ik]);
+		histo_t pk;
+		if ((ik<pk_tt.nk)&&(pk_tt.k[ik]==pk_dt.k[ik])) pk = pk_tt.pk[ik];
+		else find_pk(pk_tt,&(pk_dt.k[ik]),&pk,1,POLY); //the two spectra may be tabulated at different k
+		fprintf(fr,"%f %f %f\n",pk_dt.k[ik],pk_dt.pk[ik],pk);
 	}
 	fclose(fr);
 }
-- 
2.43.0


From 03990bc17163020346d770d398ff0232d4fadbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:10 +0000
Subject: [PATCH 23/27] fix: nan_to_zero left some columns converted when an
 allocation failed

---
 pyregpt/pyregpt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index b309bdc..1be4122 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -111,7 +111,8 @@ class Terms(object):
         self.columns.update(columns)
 
     def nan_to_zero(self):
-        for key in self.FIELDS: self[key][np.isnan(self[key])] = 0.
+        masks, zero = [np.isnan(self[key]) for key in self.FIELDS], np.zeros(())
+        for key, mask in zip(self.FIELDS, masks): np.copyto(self[key], zero, where=mask)
 
     def rescale(self, scale=1.):
         for key in self.fields: self[key] *= scale**(2 * self.SCALE[key])
-- 
2.43.0


From f76ebdcc88f5b2a5a4ab967fe379e9afa0119005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:11 +0000
Subject: [PATCH 24/27] fix: the terms of A1Loop were not laid out by rows
 before the calculation, and slicing mixed rows up

---
 pyregpt/pyregpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 1be4122..dc2e28d 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -547,6 +547,7 @@ class A1Loop(PyRegPT):
 
         self.zeros(k=k, dtype=self.C_TYPE)
         self._set_terms()
+        self.reshape()
 
     def run_terms(self, nthreads=8):
 
-- 
2.43.0


From b4ca561d3123d1391c7d03605f5b563033838378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:14 +0000
Subject: [PATCH 25/27] fix: sigma3sq is of first order in the linear spectrum
 when terms are rescaled

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index dc2e28d..13e3261 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -457,7 +457,7 @@ class Bias1Loop(PyRegPT):
 
     SETTER = 'set_terms_bias_1loop'
     FIELDS = ['k', 'pk_lin', 'sigmad2', 'pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22', 'sigma3sq']
-    SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2, 'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 2}
+    SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2, 'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 1}
 
     @scale_factor(1)
     def pk_lin(self):
-- 
2.43.0


From 2b35eb01d9dcbb27ceced5df56c8cc04dbf0d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:37 +0000
Subject: [PATCH 26/27] fix: look-ups at wavenumbers that are not in increasing
 order started from the previous one

---
 src/common.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common.c b/src/common.c
index a8b003d..e9b767e 100644
--- a/src/common.c
+++ b/src/common.c
@@ -192,6 +192,7 @@ void find_pk(Pk pkin,histo_t* k,histo_t* pk,size_t nk,INTERPOL interpol)
 		if (k[ik]>kend) pk[ik] = extrapol_pk_highk(pkin,k[ik]);
 		else if (k[ik]<kstart) pk[ik] = extrapol_pk_lowk(pkin,k[ik]);
 		else {
+			if (k[ik]<pkin.k[start]) start = 0; //k are not in increasing order
 			size_t ind = get_dichotomy_index(k[ik],pkin.k,start,end+1);
 			start = ind;
 			if (interpol==POLY) {
@@ -221,6 +222,10 @@ void calc_running_sigmad2(histo_t *k,histo_t *sigmad2,size_t nk,histo_t uvcutoff
 			sigmad2[ik] = 0.;
 			continue;
 		}
+		if (kmax < pk_lin.k[iklin]) { //k are not in increasing order
+			iklin = 0;
+			sigmad2_ = 0.;
+		}
 		for (iklin=iklin;iklin<pk_lin.nk-1;iklin++) {
 			if (kmax < pk_lin.k[iklin+1]) {
 				histo_t pk_kmax = interpol_lin(kmax,pk_lin.k[iklin],pk_lin.k[iklin+1],pk_lin.pk[iklin],pk_lin.pk[iklin+1]);
-- 
2.43.0


From d06478ebeb6b25f99ed128c7fd63c3c77c6bc25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:10 +0000
Subject: [PATCH 27/27] fix: set_terms of SpectrumNoWiggle always raised
 AttributeError (Terms.zeros ignored its dtype)

---
 pyregpt/pyregpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 13e3261..5b4a1da 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -122,8 +122,8 @@ class Terms(object):
         size = len(columns['k'])
         for key in self.FIELDS:
             if key == 'k': continue
-            if key in self.SHAPE: columns[key] = np.zeros((size,) + tuple(self.SHAPE[key]), dtype=self.C_TYPE).flatten()
-            else: columns[key] = np.zeros((size,), dtype=self.C_TYPE)
+            if key in self.SHAPE: columns[key] = np.zeros((size,) + tuple(self.SHAPE[key]), dtype=dtype).flatten()
+            else: columns[key] = np.zeros((size,), dtype=dtype)
         self.columns.update(columns)
 
     def reshape(self):
-- 
2.43.0

