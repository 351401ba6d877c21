From 6320b7c4afecf3b34b3747f3cac6c0ecd33802ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:45 +0000
Subject: [PATCH 01/27] fix: look each wavenumber up in the whole table,
 whatever was requested before it

---
 src/common.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index d44ed31..5726cb3 100644
--- a/src/common.c
+++ b/src/common.c
@@ -192,8 +192,7 @@ void find_pk(Pk pkin,histo_t* k,histo_t* pk,size_t nk,INTERPOL interpol)
 		if (k[ik]>kend) pk[ik] = extrapol_pk_highk(pkin,k[ik]);
 		else if (k[ik]<kstart) pk[ik] = extrapol_pk_lowk(pkin,k[ik]);
 		else {
-			size_t ind = get_dichotomy_index(k[ik],pkin.k,start,end+1);
-			start = ind;
+			size_t ind = get_dichotomy_index(k[ik],pkin.k,0,end+1);
 			if (interpol==POLY) {
 				size_t ikmin = MAX(0,((long) ind)-2);
 				size_t ikmax = MIN(end,ind+2);
-- 
2.43.0


From e864366f99051a8a062135328ee0313782b920cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:45 +0000
Subject: [PATCH 02/27] fix: linear interpolation at the last tabulated
 wavenumber read past the table

---
 src/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.c b/src/common.c
index 5726cb3..d1146c9 100644
--- a/src/common.c
+++ b/src/common.c
@@ -192,7 +192,7 @@ void find_pk(Pk pkin,histo_t* k,histo_t* pk,size_t nk,INTERPOL interpol)
 		if (k[ik]>kend) pk[ik] = extrapol_pk_highk(pkin,k[ik]);
 		else if (k[ik]<kstart) pk[ik] = extrapol_pk_lowk(pkin,k[ik]);
 		else {
-			size_t ind = get_dichotomy_index(k[ik],pkin.k,0,end+1);
+			size_t ind = get_dichotomy_index(k[ik],pkin.k,0,end);
 			if (interpol==POLY) {
 				size_t ikmin = MAX(0,((long) ind)-2);
 				size_t ikmax = MIN(end,ind+2);
-- 
2.43.0


From 2a98afbe9779d2d8478e680fb69d1ef80a655b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:45 +0000
Subject: [PATCH 03/27] fix: displacement dispersion was wrong for wavenumbers
 not in increasing order

---
 src/common.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common.c b/src/common.c
index d1146c9..4d7148b 100644
--- a/src/common.c
+++ b/src/common.c
@@ -211,15 +211,15 @@ void find_pk_lin(histo_t* k,histo_t* pk,size_t nk,INTERPOL interpol)
 void calc_running_sigmad2(histo_t *k,histo_t *sigmad2,size_t nk,histo_t uvcutoff)
 {
 	//sigmav^2 = int_0^{k/2} dq P0(q)/(6*pi^2)
-	size_t ik,iklin = 0;
-	histo_t sigmad2_ = 0.;
+	size_t ik,iklin;
 	for (ik=0;ik<nk;ik++) {
+		histo_t sigmad2_ = 0.;
 		histo_t kmax = k[ik]*uvcutoff;
 		if (kmax < pk_lin.k[0]) {
 			sigmad2[ik] = 0.;
 			continue;
 		}
-		for (iklin=iklin;iklin<pk_lin.nk-1;iklin++) {
+		for (iklin=0;iklin<pk_lin.nk-1;iklin++) {
 			if (kmax < pk_lin.k[iklin+1]) {
 				histo_t pk_kmax = interpol_lin(kmax,pk_lin.k[iklin],pk_lin.k[iklin+1],pk_lin.pk[iklin],pk_lin.pk[iklin+1]);
 				sigmad2[ik] = (sigmad2_ + (pk_kmax + pk_lin.pk[iklin]) * (kmax - pk_lin.k[iklin]))/(12.*M_PI*M_PI);
-- 
2.43.0


From a7c9503186d2755e585e34f2de037502a6fdb381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:40 +0000
Subject: [PATCH 04/27] fix: spectra set for (delta,delta) were taken as
 delta-theta spectra

---
 src/spectrum_B.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index 5f46cba..061cf0c 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -62,7 +62,7 @@ void set_spectra_B(char* a_,char* b_, size_t nk, histo_t *k, histo_t *pk)
 	pk_ab.pk = pk;
 	FLAG a = set_flag(a_);
 	FLAG b = set_flag(b_);
-	if (((a==DELTA)&&(b=THETA))||((a==THETA)&&(b==DELTA))) {
+	if (((a==DELTA)&&(b==THETA))||((a==THETA)&&(b==DELTA))) {
 		if (verbose == INFO) printf(" - setting P_delta_theta\n");
 		pk_dt = pk_ab;
 	}
-- 
2.43.0


From 8df9a698a77a1bf6e83110f95877349830fd1846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:40 +0000
Subject: [PATCH 05/27] fix: forget the spectra computed for the B term once
 they are freed

---
 src/spectrum_B.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index 061cf0c..44612c5 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -95,6 +95,8 @@ void free_spectra_B()
 {
 	free(pk_dt.pk);
 	free(pk_tt.pk);
+	pk_dt.nk = 0;
+	pk_tt.nk = 0;
 }
 
 void run_terms_B(size_t num_threads)
-- 
2.43.0


From 38ab35f224c35258a72a1a2915c9cdb34f8f0615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:40 +0000
Subject: [PATCH 06/27] fix: fully damped bispectra stay zero

---
 src/bispectrum_1loop.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bispectrum_1loop.c b/src/bispectrum_1loop.c
index 59cced7..8e27097 100644
--- a/src/bispectrum_1loop.c
+++ b/src/bispectrum_1loop.c
@@ -116,6 +116,7 @@ void bispectrum_1loop_I(histo_t k, histo_t p, histo_t kp, histo_t* b211A, histo_
 		*b221tA = 0.;
 		*b212tA = 0.;
 		*b222tA = 0.;
+		return;
 	}
 	exp_factor = my_exp(-exp_factor);
 	
-- 
2.43.0


From 9a5dff4788b701f947c78f15c575c37c99ed72b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:40 +0000
Subject: [PATCH 07/27] fix: do not read wavenumbers of an empty list

---
 src/regpt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regpt.c b/src/regpt.c
index 267c8f3..3ada97e 100644
--- a/src/regpt.c
+++ b/src/regpt.c
@@ -40,7 +40,7 @@ void print_k(histo_t *k,size_t nk)
 {
 	printf("*** k-output\n");
 	printf(" - #modes: %zu\n",nk);
-	printf(" - range: %.3g < k < %.3g\n",k[0],k[nk-1]);
+	if (nk>0) printf(" - range: %.3g < k < %.3g\n",k[0],k[nk-1]);
 }
 
 void print_flags(FLAG a,FLAG b)
-- 
2.43.0


From 95a5bc2259b30fb9afebae367ad3d734b6814005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:40 +0000
Subject: [PATCH 08/27] fix: sign of the third-order term of the velocity
 two-loop propagator expansion

---
 src/gamma1_2loop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gamma1_2loop.c b/src/gamma1_2loop.c
index 4694428..8cc511a 100644
--- a/src/gamma1_2loop.c
+++ b/src/gamma1_2loop.c
@@ -38,7 +38,7 @@ histo_t beta(FLAG a, histo_t q1, histo_t q2) {
 			histo_t diffy2 = diffy*diffy;
 			histo_t diffy3 = diffy2*diffy;
 			histo_t diffy4 = diffy3*diffy;
-			return 594232. / 33108075. + (91912.*diffy2)/33108075. - (91912.*diffy3)/33108075. + (1818458.*diffy4)/1092566475.;
+			return 594232. / 33108075. + (91912.*diffy2)/33108075. + (91912.*diffy3)/33108075. + (1818458.*diffy4)/1092566475.;
 		}
 		else if (y < 0.01) {
 			return 9886./429975. - 254356.*y*y/4729725.;
-- 
2.43.0


From bf651a6d45780467d3e11495987a2b24c802c76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:07 +0000
Subject: [PATCH 09/27] fix: do not overwrite the configured integration range
 with that of the current spectrum

---
 src/calc_pkcorr_from_A_2loop_II_III.c | 12 +++++++-----
 src/calc_pkcorr_from_gamma3.c         | 18 ++++++++++--------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/calc_pkcorr_from_A_2loop_II_III.c b/src/calc_pkcorr_from_A_2loop_II_III.c
index 1aa84b8..6531abb 100644
--- a/src/calc_pkcorr_from_A_2loop_II_III.c
+++ b/src/calc_pkcorr_from_A_2loop_II_III.c
@@ -30,12 +30,14 @@ void set_precision_A_2loop_II_III_q(histo_t min_,histo_t max_,char* interpol_)
 
 void init_A_2loop_II_III()
 {
-	if ((precision_q.min<=0.)||(precision_q.max<=0.)) {
-		precision_q.min = pk_lin.k[0];
-		precision_q.max = pk_lin.k[pk_lin.nk-1];
+	histo_t qmin = precision_q.min;
+	histo_t qmax = precision_q.max;
+	if ((qmin<=0.)||(qmax<=0.)) {
+		qmin = pk_lin.k[0];
+		qmax = pk_lin.k[pk_lin.nk-1];
 	}
-	logqmin = my_log(precision_q.min);
-	logqmax = my_log(precision_q.max);
+	logqmin = my_log(qmin);
+	logqmax = my_log(qmax);
 	get_precision_bispectrum_1loop_pk_lin(&interpol_pk_lin);
 	get_running_uvcutoff_bispectrum_1loop(&uvcutoff);
 }
diff --git a/src/calc_pkcorr_from_gamma3.c b/src/calc_pkcorr_from_gamma3.c
index b568d63..3c824a8 100644
--- a/src/calc_pkcorr_from_gamma3.c
+++ b/src/calc_pkcorr_from_gamma3.c
@@ -6,7 +6,7 @@
 #include "common.h"
 #include "kernels.h"
 
-static histo_t k,logqmin,logqmax;
+static histo_t k,qmin,qmax,logqmin,logqmax;
 static const Precision precision_q_default = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static Precision precision_q = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static FLAG a,b;
@@ -19,12 +19,14 @@ void set_precision_gamma3_tree_q(histo_t min_,histo_t max_,char* interpol_)
 
 void init_gamma3_tree()
 {
-	if ((precision_q.min<=0.)||(precision_q.max<=0.)) {
-		precision_q.min = pk_lin.k[0];
-		precision_q.max = pk_lin.k[pk_lin.nk-1];
+	qmin = precision_q.min;
+	qmax = precision_q.max;
+	if ((qmin<=0.)||(qmax<=0.)) {
+		qmin = pk_lin.k[0];
+		qmax = pk_lin.k[pk_lin.nk-1];
 	}
-	logqmin = my_log(precision_q.min);
-	logqmax = my_log(precision_q.max);
+	logqmin = my_log(qmin);
+	logqmax = my_log(qmax);
 }
 
 void free_gamma3_tree() {}
@@ -63,7 +65,7 @@ static void kernel_pk_gamma3_tree(const int *ndim, const double xx[],const int *
 	histo_t prod_q_kp = qq[0]*kp[0] + qq[1]*kp[1] + qq[2]*kp[2];
 	
 	ff[0] = 0.;
-	if ((k_p_q>=precision_q.min)&&(k_p_q<=precision_q.max)&&(prod_q_kp<=0.5*k_p*k_p)) {
+	if ((k_p_q>=qmin)&&(k_p_q<=qmax)&&(prod_q_kp<=0.5*k_p*k_p)) {
 		histo_t pk_p,pk_q,pk_kpq;
 		find_pk_lin(&p,&pk_p,1,precision_q.interpol);
 		find_pk_lin(&q,&pk_q,1,precision_q.interpol);
@@ -134,7 +136,7 @@ static int kernel_pk_gamma3_tree(const int *ndim, const double xx[],const int *n
 	histo_t prod_q_kp = qq[0]*kp[0] + qq[1]*kp[1] + qq[2]*kp[2];
 	
 	ff[0] = 0.;
-	if ((k_p_q>=precision_q.min)&&(k_p_q<=precision_q.max)&&(prod_q_kp<=0.5*k_p*k_p)) {
+	if ((k_p_q>=qmin)&&(k_p_q<=qmax)&&(prod_q_kp<=0.5*k_p*k_p)) {
 		histo_t pk_p,pk_q,pk_kpq;
 		find_pk_lin(&p,&pk_p,1,precision_q.interpol);
 		find_pk_lin(&q,&pk_q,1,precision_q.interpol);
-- 
2.43.0


From d77b4e7f1c46fd8dbaa88e5526ca10a66563807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:21 +0000
Subject: [PATCH 10/27] fix: each thread keeps its own copy of the spectra of
 the B term

---
 src/calc_pkcorr_from_B.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calc_pkcorr_from_B.c b/src/calc_pkcorr_from_B.c
index 99f0a1c..957d2ec 100644
--- a/src/calc_pkcorr_from_B.c
+++ b/src/calc_pkcorr_from_B.c
@@ -13,7 +13,7 @@
 static Pk pk_dt,pk_tt;
 static GaussLegendreQ gauss_legendre_q;
 static GaussLegendreMu gauss_legendre_mu;
-#pragma omp threadprivate(gauss_legendre_q,gauss_legendre_mu)
+#pragma omp threadprivate(pk_dt,pk_tt,gauss_legendre_q,gauss_legendre_mu)
 static const Precision precision_q_default = {.n=600,.min=5e-4,.max=10.,.interpol=POLY};
 static Precision precision_q = {.n=600,.min=5e-4,.max=10.,.interpol=POLY};
 static const Precision precision_mu_default = {.n=10,.min=-1.,.max=1.,.interpol=POLY};
-- 
2.43.0


From e4dae64a99bb7d065c38cc672c45700c7a9055a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:21 +0000
Subject: [PATCH 11/27] fix: debug output of the spectra of the B term read
 past the shorter one

---
 src/spectrum_B.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index 44612c5..ef470b7 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -34,7 +34,7 @@ void write_spectra_B(char *fn)
 	size_t ik;
 	fr=fopen(fn,"w");
 	if (fr==NULL) error_open_file(fn);
-	for (ik=0;ik<pk_dt.nk;ik++) {
+	for (ik=0;ik<MIN(pk_dt.nk,pk_tt.nk);ik++) {
 		fprintf(fr,"%f %f %f\n",pk_dt.k[ik],pk_dt.pk[ik],pk_tt.pk[ik]);
 	}
 	fclose(fr);
-- 
2.43.0


From 76ae24b675c1bb403ed6b5b3ad6143b1636673b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:09 +0000
Subject: [PATCH 12/27] fix: sigma3sq is linear in the power spectrum, rescale
 it accordingly

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 2bdfe17..4cab81f 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -406,7 +406,7 @@ class Spectrum2Loop(Spectrum1Loop):
 class Bias1Loop(PyRegPT):
 
     FIELDS = ['k', 'pk_lin', 'sigmad2', 'pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22', 'sigma3sq']
-    SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2, 'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 2}
+    SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2, 'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 1}
 
     @scale_factor(1)
     def pk_lin(self):
-- 
2.43.0


From 32f9f92779972e1e069da19e14e9e7b62fb5d658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:18 +0000
Subject: [PATCH 13/27] fix: pad terms along wavenumbers only, and only where
 there is something to add

---
 pyregpt/pyregpt.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 4cab81f..6fb3b04 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -100,13 +100,14 @@ class Terms(object):
         pad_start = np.sum(k < self.k[0])
         pad_end = np.sum(k > self.k[-1])
         for key in self.FIELDS:
-            pad_width = ((0, 0)) * (self[key].ndim - 1) + ((pad_start, pad_end))
+            pad_width = ((pad_start, pad_end),) + ((0, 0),) * (self[key].ndim - 1)
             self[key] = np.pad(self[key], pad_width=pad_width, mode=mode, constant_values=constant_values)
+        end = self.size - pad_end
         self['k'][:pad_start] = k[:pad_start]
-        self['k'][-pad_end:] = k[-pad_end:]
+        self['k'][end:] = k[len(k) - pad_end:]
         for key in kwargs:
             self[key][:pad_start] = kwargs[key][:pad_start]
-            self[key][-pad_end:] = kwargs[key][-pad_end:]
+            self[key][end:] = kwargs[key][len(k) - pad_end:]
 
     def nan_to_zero(self):
         for key in self.FIELDS: self[key][np.isnan(self[key])] = 0.
-- 
2.43.0


From 27cf150df3b830969363b9546bd7c241a23a8e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:18 +0000
Subject: [PATCH 14/27] fix: spectra that do not use the library have no C_TYPE

---
 pyregpt/pyregpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 6fb3b04..fc33f27 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -119,8 +119,8 @@ class Terms(object):
         self['k'] = np.asarray(k, dtype=dtype).flatten()
         for key in self.FIELDS:
             if key == 'k': continue
-            if key in self.SHAPE: self[key] = np.zeros((self.size,) + tuple(self.SHAPE[key]), dtype=self.C_TYPE).flatten()
-            else: self[key] = np.zeros((self.size,), dtype=self.C_TYPE)
+            if key in self.SHAPE: self[key] = np.zeros((self.size,) + tuple(self.SHAPE[key]), dtype=dtype).flatten()
+            else: self[key] = np.zeros((self.size,), dtype=dtype)
 
     def reshape(self):
         for key in self.FIELDS:
-- 
2.43.0


From 19559268da2f33862c57e069dff7ec58e330f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:18 +0000
Subject: [PATCH 15/27] fix: B correction outside the tabulated range takes the
 requested values

---
 pyregpt/pyregpt.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index fc33f27..a9fbdf7 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -573,15 +573,15 @@ class B1Loop(PyRegPT):
         beta2 = beta**2
         beta3 = beta2 * beta
         beta4 = beta2 * beta2
-        return mu2 * beta2 * np.interp(k, self['k'], pk[0], left=0., right=0.) \
-               + mu2 * beta3 * np.interp(k, self['k'], pk[1], left=0., right=0.) \
-               + mu2 * beta4 * np.interp(k, self['k'], pk[2], left=0., right=0.) \
-               + mu4 * beta2 * np.interp(k, self['k'], pk[3], left=0., right=0.) \
-               + mu4 * beta3 * np.interp(k, self['k'], pk[4], left=0., right=0.) \
-               + mu4 * beta4 * np.interp(k, self['k'], pk[5], left=0., right=0.) \
-               + mu6 * beta3 * np.interp(k, self['k'], pk[6], left=0., right=0.) \
-               + mu6 * beta4 * np.interp(k, self['k'], pk[7], left=0., right=0.) \
-               + mu8 * beta4 * np.interp(k, self['k'], pk[8], left=0., right=0.)
+        return mu2 * beta2 * np.interp(k, self['k'], pk[0], left=left, right=right) \
+               + mu2 * beta3 * np.interp(k, self['k'], pk[1], left=left, right=right) \
+               + mu2 * beta4 * np.interp(k, self['k'], pk[2], left=left, right=right) \
+               + mu4 * beta2 * np.interp(k, self['k'], pk[3], left=left, right=right) \
+               + mu4 * beta3 * np.interp(k, self['k'], pk[4], left=left, right=right) \
+               + mu4 * beta4 * np.interp(k, self['k'], pk[5], left=left, right=right) \
+               + mu6 * beta3 * np.interp(k, self['k'], pk[6], left=left, right=right) \
+               + mu6 * beta4 * np.interp(k, self['k'], pk[7], left=left, right=right) \
+               + mu8 * beta4 * np.interp(k, self['k'], pk[8], left=left, right=right)
 
 
 class B2Loop(B1Loop):
-- 
2.43.0


From a17081e124826abb13d50d4df7973cc06f8afe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:19 +0000
Subject: [PATCH 16/27] fix: a copy has its own set of columns

---
 pyregpt/pyregpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index a9fbdf7..65d48ff 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -88,6 +88,7 @@ class Terms(object):
     def copy(self):
         new = self.__class__()
         new.__dict__.update(self.__dict__)
+        new.columns = dict(self.columns)
         return new
 
     def deepcopy(self):
-- 
2.43.0


From 54be076220d5c96251ea17d5f9e969510313f0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:19 +0000
Subject: [PATCH 17/27] fix: deep copy of terms without linear spectrum

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 65d48ff..3a85f68 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -324,7 +324,7 @@ class PyRegPT(Terms):
 
     def deepcopy(self):
         new = super(PyRegPT, self).deepcopy()
-        new.spectrum_lin = self.spectrum_lin.deepcopy()
+        if hasattr(self, 'spectrum_lin'): new.spectrum_lin = self.spectrum_lin.deepcopy()
         return new
 
     def pad_k(self, k, mode='constant', constant_values=0., interpol='poly'):
-- 
2.43.0


From e4a36ac4ea39a8679d48fe9dfca26db4fa27a977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:48 +0000
Subject: [PATCH 18/27] fix: names of precision settings, and groups reach all
 of their members

---
 pyregpt/pyregpt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 3a85f68..c04f295 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -272,11 +272,11 @@ class PyRegPT(Terms):
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_q':
-            for calculation in ['spectrum_2loop_q', 'bias_1loop_q', 'A_2loop_q', 'B_q']:
+            for calculation in ['spectrum_2loop_q', 'bias_1loop_q', 'A_1loop_q', 'A_2loop_q', 'B_q']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_mu':
-            for calculation in ['gamma2_tree_mu', 'bias_1loop_mu', 'A_2loop_I_mu', 'B_mu']:
+            for calculation in ['gamma2_tree_mu', 'bias_1loop_mu', 'A_1loop_mu', 'A_2loop_I_mu', 'B_mu']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'spectrum_1loop_q':
@@ -295,7 +295,7 @@ class PyRegPT(Terms):
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_pklin':
-            for calculation in ['spectrum_1loop_pk_lin', 'spectrum_2loop_pk_lin', 'bias_pk_lin', 'bispectrum_1loop_pk_lin', 'spectrum_A_2loop_pklin', 'spectrum_B_2loop_pklin']:
+            for calculation in ['spectrum_1loop_pk_lin', 'spectrum_2loop_pk_lin', 'bias_1loop_pk_lin', 'bispectrum_1loop_pk_lin', 'A_1loop_pk_lin', 'A_2loop_pk_lin', 'B_pk_lin']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         func = getattr(self.regpt, 'set_precision_' + calculation)
-- 
2.43.0


From 8c23dfbe935cc9d7fcecbaae287731732b79efdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:48 +0000
Subject: [PATCH 19/27] fix: running cutoffs of the A and B terms can be set,
 also all at once

---
 pyregpt/pyregpt.py     | 2 +-
 src/spectrum_A_1loop.c | 2 +-
 src/spectrum_A_2loop.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index c04f295..362f8c0 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -315,7 +315,7 @@ class PyRegPT(Terms):
     def set_running_uvcutoff(self, calculation='all', uvcutoff=0.5):
 
         if calculation == 'all':
-            for calculation in ['spectrum_1loop', 'spectrum_2loop', 'bispectrum_1loop', 'bias_1loop']:
+            for calculation in ['spectrum_1loop', 'spectrum_2loop', 'bispectrum_1loop', 'bias_1loop', 'A_1loop', 'A_2loop', 'B']:
                 self.set_running_uvcutoff(calculation, uvcutoff=uvcutoff)
             return
         func = getattr(self.regpt, 'set_running_uvcutoff_' + calculation)
diff --git a/src/spectrum_A_1loop.c b/src/spectrum_A_1loop.c
index 8320cd8..3311bb7 100644
--- a/src/spectrum_A_1loop.c
+++ b/src/spectrum_A_1loop.c
@@ -21,7 +21,7 @@ void set_precision_A_1loop_pk_lin(char* interpol_)
 	set_interpol(&interpol_pk_lin,interpol_);
 }
 
-void set_precision_A_1loop_sigmad2(histo_t uvcutoff_)
+void set_running_uvcutoff_A_1loop(histo_t uvcutoff_)
 {
 	uvcutoff = uvcutoff_;
 }
diff --git a/src/spectrum_A_2loop.c b/src/spectrum_A_2loop.c
index fb99862..ecc090e 100644
--- a/src/spectrum_A_2loop.c
+++ b/src/spectrum_A_2loop.c
@@ -19,7 +19,7 @@ void set_precision_A_2loop_pk_lin(char* interpol_)
 	set_interpol(&interpol_pk_lin,interpol_);
 }
 
-void set_precision_A_2loop_sigmad2(histo_t uvcutoff_)
+void set_running_uvcutoff_A_2loop(histo_t uvcutoff_)
 {
 	uvcutoff = uvcutoff_;
 }
-- 
2.43.0


From c5dab68a137d5b7575e125a58016df9509aba357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:48 +0000
Subject: [PATCH 20/27] fix: clear also resets the interpolation of the linear
 spectrum

---
 pyregpt/pyregpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 362f8c0..a0f2ddd 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -335,6 +335,7 @@ class PyRegPT(Terms):
     def clear(self):
         #To reset all precision settings
         self.set_precision(calculation='all', n=0, min=1., max=-1., interpol='test')
+        self.set_precision(calculation='all_pklin', interpol='poly')
         self.set_running_uvcutoff(calculation='all')
         self.set_verbosity()
 
-- 
2.43.0


From c5062a1b9f75160dc31308d3e6a8cd0e8b596d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:48 +0000
Subject: [PATCH 21/27] fix: creating or copying an object does not change the
 verbosity of the library

---
 pyregpt/pyregpt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index a0f2ddd..41cfff5 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -194,12 +194,13 @@ class PyRegPT(Terms):
 
     C_TYPE = ctypes.c_double
     _path_lib = os.path.join(utils.lib_dir, 'regpt.so')
+    _verbose = 'info'
 
     def __init__(self, *args, **kwargs):
 
         super(PyRegPT, self).__init__(*args, **kwargs)
         self.regpt = ctypes.CDLL(self._path_lib, mode=ctypes.RTLD_LOCAL)
-        self.set_verbosity(self._verbose if hasattr(self, '_verbose') else 'info')
+        self.set_verbosity(self._verbose)
 
     def nodes_weights_gauss_legendre(self, xmin, xmax, nx):
 
@@ -249,7 +250,7 @@ class PyRegPT(Terms):
     def set_verbosity(self, mode='info'):
         self.regpt.set_verbosity.argtypes = (ctypes.c_char_p,)
         self.regpt.set_verbosity(mode.encode('utf-8'))
-        self._verbose = mode
+        PyRegPT._verbose = mode  # verbosity is that of the library
 
     def set_spectrum_lin(self, spectrum_lin):
 
-- 
2.43.0


From 2124cdd22571f18f31220f6a6a650af31c6ed76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:48 +0000
Subject: [PATCH 22/27] fix: convert tables to interpolate to the type the
 library expects

---
 pyregpt/pyregpt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 41cfff5..6026819 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -214,6 +214,8 @@ class PyRegPT(Terms):
 
     def interpol_poly(self, x, tabx, taby):
 
+        tabx = np.asarray(tabx, dtype=self.C_TYPE).flatten()
+        taby = np.asarray(taby, dtype=self.C_TYPE).flatten()
         nx = len(tabx)
         assert nx == len(taby)
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(nx,))
-- 
2.43.0


From fe500b4a9df64519a2627d540d78b5f44b0fce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:48 +0000
Subject: [PATCH 23/27] fix: each object uses its own linear spectrum and fills
 its own terms

---
 pyregpt/pyregpt.py | 75 +++++++++++++++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 28 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 6026819..6be9199 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -231,6 +231,7 @@ class PyRegPT(Terms):
 
     def find_pk_lin(self, k, interpol='poly'):
 
+        self.bind_spectrum_lin()
         k = np.asarray(k, dtype=self.C_TYPE).flatten()
         pk = np.zeros_like(k)
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),))
@@ -241,6 +242,7 @@ class PyRegPT(Terms):
 
     def calc_running_sigmad2(self, k, uvcutoff=0.5):
 
+        self.bind_spectrum_lin()
         k = np.asarray(k, dtype=self.C_TYPE).flatten()
         sigmad2 = np.zeros_like(k)
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),))
@@ -257,9 +259,27 @@ class PyRegPT(Terms):
     def set_spectrum_lin(self, spectrum_lin):
 
         self.spectrum_lin = spectrum_lin
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
+        self.bind_spectrum_lin()
+
+    def get_spectrum_lin(self):
+
+        return [np.asarray(self.spectrum_lin[key], dtype=self.C_TYPE).flatten() for key in ['k', 'pk']]
+
+    def bind_spectrum_lin(self):
+        # The library is shared by all objects: make it use the spectrum of this one
+        if not hasattr(self, 'spectrum_lin'): return
+        k, pk = PyRegPT._pk_lin = self.get_spectrum_lin()  # the library only keeps pointers to these arrays
+        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),))
         self.regpt.set_pk_lin.argtypes = (pointer, pointer, ctypes.c_size_t)
-        self.regpt.set_pk_lin(self.spectrum_lin.k, self.spectrum_lin['pk'], self.spectrum_lin.size)
+        self.regpt.set_pk_lin(k, pk, len(k))
+
+    def bind_terms(self, name):
+        # The library is shared by all objects: make it fill the arrays of this one
+        self.bind_spectrum_lin()
+        for key in self.FIELDS: self[key] = np.ascontiguousarray(self[key], dtype=self.C_TYPE)
+        func = getattr(self.regpt, 'set_terms_' + name)
+        func.argtypes = (ctypes.c_size_t,) + tuple(ctypeslib.ndpointer(dtype=self.C_TYPE, shape=self[key].shape) for key in self.FIELDS)
+        func(self.size, *self.tolist())
 
     def set_pk_lin(self, k, pk):
 
@@ -351,12 +371,11 @@ class Spectrum1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
-        self.regpt.set_terms_spectrum_1loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
-        self.regpt.set_terms_spectrum_1loop(self.size, *self.tolist())
+        self.bind_terms('spectrum_1loop')
 
     def run_terms(self, a='delta', b='delta', nthreads=8):
 
+        self.bind_terms('spectrum_1loop')
         self.regpt.run_terms_spectrum_1loop.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
         self.regpt.run_terms_spectrum_1loop(a.encode('utf-8'), b.encode('utf-8'), nthreads)
 
@@ -385,12 +404,11 @@ class Spectrum2Loop(Spectrum1Loop):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
-        self.regpt.set_terms_spectrum_2loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
-        self.regpt.set_terms_spectrum_2loop(self.size, *self.tolist())
+        self.bind_terms('spectrum_2loop')
 
     def run_terms(self, a='delta', b='delta', nthreads=8):
 
+        self.bind_terms('spectrum_2loop')
         self.regpt.run_terms_spectrum_2loop.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
         self.regpt.run_terms_spectrum_2loop(a.encode('utf-8'), b.encode('utf-8'), nthreads)
 
@@ -465,12 +483,11 @@ class Bias1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
-        self.regpt.set_terms_bias_1loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
-        self.regpt.set_terms_bias_1loop(self.size, *self.tolist())
+        self.bind_terms('bias_1loop')
 
     def run_terms(self, nthreads=8):
 
+        self.bind_terms('bias_1loop')
         self.regpt.run_terms_bias_1loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_bias_1loop(nthreads)
 
@@ -500,12 +517,11 @@ class A1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
-        self.regpt.set_terms_A_1loop.argtypes = (ctypes.c_size_t,) + tuple(pointers)
-        self.regpt.set_terms_A_1loop(self.size, *self.tolist())
+        self.bind_terms('A_1loop')
 
     def run_terms(self, nthreads=8):
 
+        self.bind_terms('A_1loop')
         self.regpt.run_terms_A_1loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_A_1loop(nthreads)
         self.reshape()
@@ -528,13 +544,12 @@ class A2Loop(A1Loop):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
-        self.regpt.set_terms_A_2loop.argtypes = (ctypes.c_size_t,) + tuple(pointers)
-        self.regpt.set_terms_A_2loop(self.size, *self.tolist())
+        self.bind_terms('A_2loop')
         self.reshape()
 
     def run_terms(self, nthreads=8):
 
+        self.bind_terms('A_2loop')
         self.regpt.run_terms_A_2loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_A_2loop(nthreads)
 
@@ -556,17 +571,17 @@ class B1Loop(PyRegPT):
     def set_terms(self, k):
 
         self.zeros(k=k, dtype=self.C_TYPE)
-        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
-        self.regpt.set_terms_B.argtypes = (ctypes.c_size_t,) + tuple(pointers)
-        self.regpt.set_terms_B(self.size, *self.tolist())
+        self.bind_terms('B')
         self.reshape()
 
     def run_terms(self, nthreads=8):
 
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
+        k, pk = self.get_spectrum_lin()
+        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),))
         self.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, pointer, pointer)
-        self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, self.spectrum_lin['pk'])
-        self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, self.spectrum_lin['pk'])
+        self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), len(k), k, pk)
+        self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), len(k), k, pk)
+        self.bind_terms('B')
         self.regpt.run_terms_B.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_B(nthreads)
 
@@ -593,22 +608,26 @@ class B2Loop(B1Loop):
 
     def run_terms(self, nthreads=8):
 
+        k = self.get_spectrum_lin()[0]
         self.spectrum_1loop_dt = Spectrum1Loop()
-        self.spectrum_1loop_dt.set_terms(self.spectrum_lin.k)
+        self.spectrum_1loop_dt.set_spectrum_lin(self.spectrum_lin)
+        self.spectrum_1loop_dt.set_terms(k)
         self.spectrum_1loop_dt.run_terms(a='delta', b='theta', nthreads=nthreads)
 
         self.spectrum_1loop_tt = Spectrum1Loop()
-        self.spectrum_1loop_tt.set_terms(self.spectrum_lin.k)
+        self.spectrum_1loop_tt.set_spectrum_lin(self.spectrum_lin)
+        self.spectrum_1loop_tt.set_terms(k)
         self.spectrum_1loop_tt.run_terms(a='theta', b='theta', nthreads=nthreads)
 
-        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
+        pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(len(k),))
         self.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, pointer, pointer)
 
         pk_dt = self.spectrum_1loop_dt.pk()  # why do I have to do that?
         pk_tt = self.spectrum_1loop_tt.pk()
 
-        self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, pk_dt)
-        self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, pk_tt)
+        self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), len(k), k, pk_dt)
+        self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), len(k), k, pk_tt)
 
+        self.bind_terms('B')
         self.regpt.run_terms_B.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_B(nthreads)
-- 
2.43.0


From db98838d718117efb09c416f363a393334191dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:48 +0000
Subject: [PATCH 24/27] fix: padding keeps the linear spectrum and dispersion
 of existing rows

---
 pyregpt/pyregpt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 6be9199..21fb320 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -351,9 +351,11 @@ class PyRegPT(Terms):
         return new
 
     def pad_k(self, k, mode='constant', constant_values=0., interpol='poly'):
+        start, size = np.sum(k < self.k[0]), self.size
         super(PyRegPT, self).pad_k(k, mode=mode, constant_values=constant_values)
-        if 'pk_lin' in self.FIELDS: self['pk_lin'] = self.find_pk_lin(self.k, interpol=interpol)
-        if 'sigmad2' in self.FIELDS: self['sigmad2'] = self.calc_running_sigmad2(self.k)
+        for rows in [slice(0, start), slice(start + size, self.size)]:
+            if 'pk_lin' in self.FIELDS: self['pk_lin'][rows] = self.find_pk_lin(self.k[rows], interpol=interpol)
+            if 'sigmad2' in self.FIELDS: self['sigmad2'][rows] = self.calc_running_sigmad2(self.k[rows])
 
     def clear(self):
         #To reset all precision settings
-- 
2.43.0


From 669356d4d44e4da8fde2a41d1f78bba3a831dc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:32 +0000
Subject: [PATCH 25/27] fix: padding modes other than constant take no constant
 values

---
 pyregpt/pyregpt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 21fb320..a6c7ed2 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -100,9 +100,10 @@ class Terms(object):
     def pad_k(self, k, mode='constant', constant_values=0., **kwargs):
         pad_start = np.sum(k < self.k[0])
         pad_end = np.sum(k > self.k[-1])
+        options = {'constant_values': constant_values} if mode == 'constant' else {}
         for key in self.FIELDS:
             pad_width = ((pad_start, pad_end),) + ((0, 0),) * (self[key].ndim - 1)
-            self[key] = np.pad(self[key], pad_width=pad_width, mode=mode, constant_values=constant_values)
+            self[key] = np.pad(self[key], pad_width=pad_width, mode=mode, **options)
         end = self.size - pad_end
         self['k'][:pad_start] = k[:pad_start]
         self['k'][end:] = k[len(k) - pad_end:]
-- 
2.43.0


From 2987d61439e225f898e54cef04bad9480ca121f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:45 +0000
Subject: [PATCH 26/27] fix: setting the precision of the one-loop spectrum
 ends there instead of raising

---
 pyregpt/pyregpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index a6c7ed2..ab49695 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -306,6 +306,7 @@ class PyRegPT(Terms):
         if calculation == 'spectrum_1loop_q':
             for calculation in ['gamma1_1loop_q', 'gamma2_tree_q']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
+            return
         if calculation == 'spectrum_2loop_q':
             for calculation in ['gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2_1loop_q', 'gamma3_tree_q']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
-- 
2.43.0


From 68d229991461e4b14b32308e991c82a651e3c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:53 +0000
Subject: [PATCH 27/27] fix: choose the elongated regime of the two-point
 kernel whichever of k1 and k2 is the small one

---
 src/gamma2d_1loop.c | 2 +-
 src/gamma2t_1loop.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gamma2d_1loop.c b/src/gamma2d_1loop.c
index 968baf0..c58efee 100644
--- a/src/gamma2d_1loop.c
+++ b/src/gamma2d_1loop.c
@@ -1882,7 +1882,7 @@ histo_t kernel_gamma2d(histo_t k1,histo_t k2,histo_t k3,histo_t q)
 	}
 	if (q<0.1*MIN3(k1, k2, k3)) return kernel_gamma2d_highk(k1, k2, k3, q);
 	if (q>10.*MAX3(k1, k2, k3)) return kernel_gamma2d_lowk(k1, k2, k3, q);
-	if ((q>50.*MIN(k1, k2))&&(my_abs(k1*k1-k3*k3)<q*q)) return kernel_gamma2d_elongate(k1, k2, k3, q);
+	if ((q>50.*MIN(k1, k2))&&(my_abs(MAX(k1, k2)*MAX(k1, k2)-k3*k3)<q*q)) return kernel_gamma2d_elongate(k1, k2, k3, q);
 	if ((q>100.*k3)&&(k3<10.*MIN(k1,k2))) return kernel_gamma2d_coll(k1, k2, k3, q);
 	//if (isnan(kernel_gamma2d_exact(k1, k2, k3, q))) printf("exact");
 	//printf("exact");
diff --git a/src/gamma2t_1loop.c b/src/gamma2t_1loop.c
index 96dc1e9..9604d3e 100644
--- a/src/gamma2t_1loop.c
+++ b/src/gamma2t_1loop.c
@@ -1861,7 +1861,7 @@ histo_t kernel_gamma2t(histo_t k1,histo_t k2,histo_t k3,histo_t q)
 	}
 	if (q<0.1*MIN3(k1, k2, k3)) return kernel_gamma2t_highk(k1, k2, k3, q);
 	if (q>10.*MAX3(k1, k2, k3)) return kernel_gamma2t_lowk(k1, k2, k3, q);
-	if ((q>50.*MIN(k1, k2))&&(my_abs(k1*k1-k3*k3)<q*q)) return kernel_gamma2t_elongate(k1, k2, k3, q);
+	if ((q>50.*MIN(k1, k2))&&(my_abs(MAX(k1, k2)*MAX(k1, k2)-k3*k3)<q*q)) return kernel_gamma2t_elongate(k1, k2, k3, q);
 	if ((q>100.*k3)&&(k3<10.*MIN(k1,k2))) return kernel_gamma2t_coll(k1, k2, k3, q);
 	return kernel_gamma2t_exact(k1, k2, k3, q);
 }
-- 
2.43.0

