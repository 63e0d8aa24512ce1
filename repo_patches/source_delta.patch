From a5ec1922357ef0691f5db6acf7f689dc2ac08594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 001/100] fix: truncate century term in convert_calendar_dates
 so century years convert correctly

---
 gravity_toolkit/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 8ad52ce..796d328 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -581,7 +581,7 @@ def convert_calendar_dates(year, month, day, hour=0.0, minute=0.0, second=0.0,
     # calculate date in Modified Julian Days (MJD) from calendar date
     # MJD: days since November 17, 1858 (1858-11-17T00:00:00)
     MJD = 367.0*year - np.floor(7.0*(year + np.floor((month+9.0)/12.0))/4.0) - \
-        np.floor(3.0*(np.floor((year + (month - 9.0)/7.0)/100.0) + 1.0)/4.0) + \
+        np.floor(3.0*(np.floor((year + np.trunc((month - 9.0)/7.0))/100.0) + 1.0)/4.0) + \
         np.floor(275.0*month/9.0) + day + hour/24.0 + minute/1440.0 + \
         second/86400.0 + 1721028.5 - 2400000.5
     # convert epochs to datetime variables
-- 
2.43.0


From 904a19fb4802ba40d60e690f90d6fa482de25250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 002/100] fix: calendar_to_julian was one day early

---
 gravity_toolkit/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 796d328..908e293 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -452,7 +452,7 @@ def calendar_to_julian(year_decimal):
     # Calculation of the Julian date from year and DofY
     JD = np.array(367.0*year - np.floor(7.0*year/4.0) -
         np.floor(3.0*(np.floor((7.0*year - 1.0)/700.0) + 1.0)/4.0) +
-        DofY + 1721058.5, dtype=np.float64)
+        DofY + 1721059.5, dtype=np.float64)
     return JD
 
 # days per month in a leap and a standard year
-- 
2.43.0


From 259b796212a5c8aa4ebdf928576059c298a8f86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 003/100] fix: scale spatial factor for millimeters of geoid
 height to millimeters

---
 gravity_toolkit/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/units.py b/gravity_toolkit/units.py
index 6fb2010..a6cc9a2 100644
--- a/gravity_toolkit/units.py
+++ b/gravity_toolkit/units.py
@@ -240,7 +240,7 @@ class units(object):
         # mmwe, millimeters water equivalent [kg/m^2]
         self.mmwe = 3.0*fraction/(1.0+2.0*self.l)/(40.0*np.pi*self.rad_e*self.rho_e)
         # mmGH, millimeters geoid height
-        self.mmGH = np.ones((self.lmax+1))/(4.0*np.pi*self.rad_e)
+        self.mmGH = np.ones((self.lmax+1))/(40.0*np.pi*self.rad_e)
         # microGal, microGal gravity perturbations
         self.microGal = (self.rad_e**2.0)/(4.0*np.pi*1.e6*self.GM)/(self.l+1.0)
         # return the degree dependent unit conversions
-- 
2.43.0


From 70479d43f1e8b9f9267ad139a44928a5791605d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 004/100] fix: Legendre functions for maximum degrees 0 and 1

---
 gravity_toolkit/associated_legendre.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/gravity_toolkit/associated_legendre.py b/gravity_toolkit/associated_legendre.py
index cfb11ab..6e74f87 100644
--- a/gravity_toolkit/associated_legendre.py
+++ b/gravity_toolkit/associated_legendre.py
@@ -116,11 +116,12 @@ def plm_colombo(LMAX, x,
 
     # Calculating the initial polynomials for the recursion
     plm[0,0,:] = 1.0
-    plm[1,0,:] = np.sqrt(3.0)*x
-    plm[1,1,:] = np.sqrt(3.0)*u
-    # calculating first derivatives for harmonics of degree 1
-    dplm[1,0,:] = (1.0/u)*(x*plm[1,0,:] - np.sqrt(3)*plm[0,0,:])
-    dplm[1,1,:] = (x/u)*plm[1,1,:]
+    if (LMAX > 0):
+        plm[1,0,:] = np.sqrt(3.0)*x
+        plm[1,1,:] = np.sqrt(3.0)*u
+        # calculating first derivatives for harmonics of degree 1
+        dplm[1,0,:] = (1.0/u)*(x*plm[1,0,:] - np.sqrt(3)*plm[0,0,:])
+        dplm[1,1,:] = (x/u)*plm[1,1,:]
     for l in range(2, LMAX+1):
         for m in range(0, l):# Zonal and Tesseral harmonics (non-sectorial)
             # Computes the non-sectorial terms from previously computed
@@ -215,7 +216,8 @@ def plm_holmes(LMAX, x,
 
     # Calculate P(l,0). These are not scaled.
     p[0,:] = 1.0
-    p[1,:]  = np.sqrt(3.0)*x
+    if (LMAX > 0):
+        p[1,:]  = np.sqrt(3.0)*x
     k = 1
     for l in range(2, LMAX+1):
         k += l
@@ -225,6 +227,7 @@ def plm_holmes(LMAX, x,
     pmm = np.sqrt(2.0)*scalef
     rescalem = 1.0/scalef
     kstart = 0
+    m = 0
 
     for m in range(1, LMAX):
         rescalem = rescalem * u
@@ -245,9 +248,10 @@ def plm_holmes(LMAX, x,
         p[k-LMAX,:] = p[k-LMAX,:] * rescalem
 
     # Calculate P(LMAX,LMAX)
-    rescalem = rescalem * u
-    kstart += m+2
-    p[kstart,:] = pmm * np.sqrt(2*LMAX+1) / np.sqrt(2*LMAX) * rescalem
+    if (LMAX > 0):
+        rescalem = rescalem * u
+        kstart += m+2
+        p[kstart,:] = pmm * np.sqrt(2*LMAX+1) / np.sqrt(2*LMAX) * rescalem
     # reshape Legendre polynomials to output dimensions
     for m in range(LMAX+1):
         for l in range(m,LMAX+1):
-- 
2.43.0


From 3b454f9fd667fb8dcd627fd2816671ea83fe0b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 005/100] fix: zonal polynomials and Gaussian weights for
 maximum degree 0

---
 gravity_toolkit/gauss_weights.py        | 3 ++-
 gravity_toolkit/legendre_polynomials.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/gauss_weights.py b/gravity_toolkit/gauss_weights.py
index 29849fb..994b01a 100755
--- a/gravity_toolkit/gauss_weights.py
+++ b/gravity_toolkit/gauss_weights.py
@@ -81,7 +81,8 @@ def gauss_weights(hw, LMAX, CUTOFF=1e-10):
         # weight for degree 0
         wl[0] = 1.0/(2.0*np.pi)
         # weight for degree 1
-        wl[1] = wl[0]*((1.0+np.exp(-2.0*b))/(1.0-np.exp(-2.0*b))-1.0/b)
+        if (LMAX > 0):
+            wl[1] = wl[0]*((1.0+np.exp(-2.0*b))/(1.0-np.exp(-2.0*b))-1.0/b)
         # valid flag
         valid = True
         # spherical harmonic degree
diff --git a/gravity_toolkit/legendre_polynomials.py b/gravity_toolkit/legendre_polynomials.py
index 2aaedc2..a56ad43 100755
--- a/gravity_toolkit/legendre_polynomials.py
+++ b/gravity_toolkit/legendre_polynomials.py
@@ -91,10 +91,11 @@ def legendre_polynomials(lmax, x, ASTYPE=np.float64):
 
     # Initialize the recurrence relation
     ptemp[0,:] = 1.0
-    ptemp[1,:] = x
     # Normalization is geodesy convention
     pl[0,:] = ptemp[0,:]
-    pl[1,:] = np.sqrt(3.0)*ptemp[1,:]
+    if (lmax > 0):
+        ptemp[1,:] = x
+        pl[1,:] = np.sqrt(3.0)*ptemp[1,:]
     for l in range(2,lmax+1):
         ptemp[l,:] = (((2.0*l)-1.0)/l)*x*ptemp[l-1,:] - ((l-1.0)/l)*ptemp[l-2,:]
         # Normalization is geodesy convention
-- 
2.43.0


From 8e41607a27ed62e5f8cab0580d7feff29fe3c169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 006/100] fix: truncate derivatives of plm_mohlenkamp to MMAX

---
 gravity_toolkit/associated_legendre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/associated_legendre.py b/gravity_toolkit/associated_legendre.py
index 6e74f87..368147a 100644
--- a/gravity_toolkit/associated_legendre.py
+++ b/gravity_toolkit/associated_legendre.py
@@ -312,7 +312,7 @@ def plm_mohlenkamp(LMAX, x,
 
     # Initialize the output Legendre polynomials
     plm = np.zeros((LMAX+1, MMAX+1, sx), dtype=astype)
-    dplm = np.zeros((LMAX+1, LMAX+1, sx), dtype=astype)
+    dplm = np.zeros((LMAX+1, MMAX+1, sx), dtype=astype)
     # Jacobi polynomial for the recurrence relation
     jlmm = np.zeros((LMAX+1, MMAX+1, sx))
     # for x=cos(th): u= sin(th)
-- 
2.43.0


From 277c6ec14bbc271fe9168e4aa8dd31165af748cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 007/100] fix: truncate orders of Legendre polynomials in
 harmonic_transform

---
 gravity_toolkit/harmonic_summation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonic_summation.py b/gravity_toolkit/harmonic_summation.py
index 3eed02c..a9f969f 100755
--- a/gravity_toolkit/harmonic_summation.py
+++ b/gravity_toolkit/harmonic_summation.py
@@ -182,7 +182,7 @@ def harmonic_transform(clm1, slm1, lon, lat,
     # calculate Ylms summation for each theta band
     for k in range(0,thmax):
         # summation over all spherical harmonic degrees
-        delta_M[:,k] = np.sum(PLM[:,:,k]*Ylms[:,:],axis=0)/2.0
+        delta_M[:,k] = np.sum(PLM[:,:MMAX+1,k]*Ylms[:,:],axis=0)/2.0
 
     # output spatial field from FFT transformation
     s = np.zeros((phimax,thmax))
-- 
2.43.0


From aaec1a7aa7896bcd8dd6f5c4798a404670208cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 008/100] fix: spherical harmonics of a single point load

---
 gravity_toolkit/gen_point_load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/gen_point_load.py b/gravity_toolkit/gen_point_load.py
index 8cf05d8..4c37c47 100644
--- a/gravity_toolkit/gen_point_load.py
+++ b/gravity_toolkit/gen_point_load.py
@@ -173,7 +173,7 @@ def spherical_harmonic_matrix(l, data, phi, theta, coeff):
     # spherical harmonic orders up to degree l
     m = np.arange(0, l+1)
     # calculate Euler's of spherical harmonic order multiplied by azimuth phi
-    mphi = np.exp(1j*np.dot(np.squeeze(phi)[:,np.newaxis], m[np.newaxis,:]))
+    mphi = np.exp(1j*np.dot(phi[:,np.newaxis], m[np.newaxis,:]))
     # reshape data to order
     D = np.kron(np.ones((1, l+1)), data[:,np.newaxis])
     # calculate spherical harmonics and multiply by coefficients and data
-- 
2.43.0


From 3c88f9a3cd30a59837dc5d81a52b9b952dfbf2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 009/100] fix: disc and spherical cap loads with numpy 2.4 and
 zonal truncation

---
 gravity_toolkit/gen_disc_load.py     | 4 ++--
 gravity_toolkit/gen_spherical_cap.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/gen_disc_load.py b/gravity_toolkit/gen_disc_load.py
index 015b391..93d3ff7 100644
--- a/gravity_toolkit/gen_disc_load.py
+++ b/gravity_toolkit/gen_disc_load.py
@@ -183,7 +183,7 @@ def gen_disc_load(data, lon, lat, area, LMAX=60, MMAX=None, UNITS=2,
         # sqrt(2*l + 3) == sqrt(2*(l+1) + 1)
         pl_lower = pl_matrix[l-1]/np.sqrt(2.0*l-1.0)
         pl_upper = pl_matrix[l+1]/np.sqrt(2.0*l+3.0)
-        pl_alpha[l] = (pl_lower - pl_upper)/2.0
+        pl_alpha[l] = (pl_lower[0] - pl_upper[0])/2.0
 
     # Calculate Legendre Polynomials using Holmes and Featherstone relation
     # this would be the plm for the center of the disc load
@@ -191,7 +191,7 @@ def gen_disc_load(data, lon, lat, area, LMAX=60, MMAX=None, UNITS=2,
     if PLM is None:
         plmout,_ = plm_holmes(LMAX, np.cos(th))
         # truncate precomputed plms to order
-        plmout = np.squeeze(plmout[:,:MMAX+1,:])
+        plmout = np.squeeze(plmout[:,:MMAX+1,:], axis=2)
     else:
         # truncate precomputed plms to degree and order
         plmout = PLM[:LMAX+1,:MMAX+1]
diff --git a/gravity_toolkit/gen_spherical_cap.py b/gravity_toolkit/gen_spherical_cap.py
index 208d888..95adda7 100755
--- a/gravity_toolkit/gen_spherical_cap.py
+++ b/gravity_toolkit/gen_spherical_cap.py
@@ -225,7 +225,7 @@ def gen_spherical_cap(data, lon, lat, LMAX=60, MMAX=None,
         # sqrt(2*l + 3) == sqrt(2*(l+1) + 1)
         pl_lower = pl_matrix[l-1]/np.sqrt(2.0*l-1.0)
         pl_upper = pl_matrix[l+1]/np.sqrt(2.0*l+3.0)
-        pl_alpha[l] = (pl_lower - pl_upper)/2.0
+        pl_alpha[l] = (pl_lower[0] - pl_upper[0])/2.0
 
     # Calculating Legendre Polynomials
     # added option to precompute plms to improve computational speed
@@ -234,7 +234,7 @@ def gen_spherical_cap(data, lon, lat, LMAX=60, MMAX=None,
     if PLM is None:
         plmout,_ = plm_holmes(LMAX, np.cos(th))
         # truncate precomputed plms to order
-        plmout = np.squeeze(plmout[:,:MMAX+1,:])
+        plmout = np.squeeze(plmout[:,:MMAX+1,:], axis=2)
     else:
         # truncate precomputed plms to degree and order
         plmout = PLM[:LMAX+1,:MMAX+1]
-- 
2.43.0


From 9bd42ccbdd14c464a273782ff51ad95e116409f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 010/100] fix: scale a time series of harmonics by a series of
 factors

---
 gravity_toolkit/harmonics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index f021275..74c3b8f 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1702,6 +1702,8 @@ class harmonics(object):
                 temp.clm[:,:,i] = v*self.clm
                 temp.slm[:,:,i] = v*self.slm
         elif (np.ndim(var) == 1) and (self.ndim == 3):
+            temp.clm = np.zeros_like(self.clm)
+            temp.slm = np.zeros_like(self.slm)
             for i,v in enumerate(var):
                 temp.clm[:,:,i] = v*self.clm[:,:,i]
                 temp.slm[:,:,i] = v*self.slm[:,:,i]
-- 
2.43.0


From 8efdef007c0d38372eefecc92336a595f908e38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 011/100] fix: squeeze harmonics without updating dimensions

---
 gravity_toolkit/harmonics.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 74c3b8f..c792ccd 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1419,9 +1419,6 @@ class harmonics(object):
         # assign degree and order fields
         if update_dimensions:
             self.update_dimensions()
-        else:
-            self.ndim = self.clm.ndim
-            self.shape = self.clm.shape
         return self
 
     def flatten(self, date=True):
-- 
2.43.0


From d0f4fda40375d526af9796fba825ddcfec2cea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 012/100] fix: truncate harmonics to zonal coefficients

---
 gravity_toolkit/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index c792ccd..88071cc 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1611,7 +1611,7 @@ class harmonics(object):
         temp = self.copy()
         # set new degree and order
         self.lmax = np.copy(lmax)
-        self.mmax = np.copy(mmax) if mmax else np.copy(lmax)
+        self.mmax = np.copy(mmax)
         # truncation levels
         l1 = self.lmax+1 if (temp.lmax > self.lmax) else temp.lmax+1
         m1 = self.mmax+1 if (temp.mmax > self.mmax) else temp.mmax+1
-- 
2.43.0


From fc3bb2ac16e1502e39b0c2831cb54a72cb308814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 013/100] fix: string representations of objects with multiple
 months

---
 gravity_toolkit/geocenter.py | 6 +++---
 gravity_toolkit/harmonics.py | 6 +++---
 gravity_toolkit/spatial.py   | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index c30b562..c5355e6 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -1214,9 +1214,9 @@ class geocenter(object):
         """String representation of the ``geocenter`` object
         """
         properties = ['gravity_toolkit.geocenter']
-        if self.month:
-            properties.append(f"    start_month: {min(self.month)}")
-            properties.append(f"    end_month: {max(self.month)}")
+        if np.any(self.month):
+            properties.append(f"    start_month: {np.min(self.month)}")
+            properties.append(f"    end_month: {np.max(self.month)}")
         return '\n'.join(properties)
 
     def __len__(self):
diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 88071cc..f469963 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1887,9 +1887,9 @@ class harmonics(object):
         properties.append(f"    max_degree: {self.lmax}")
         if self.mmax and (self.mmax != self.lmax):
             properties.append(f"    max_order: {self.mmax}")
-        if self.month:
-            properties.append(f"    start_month: {min(self.month)}")
-            properties.append(f"    end_month: {max(self.month)}")
+        if np.any(self.month):
+            properties.append(f"    start_month: {np.min(self.month)}")
+            properties.append(f"    end_month: {np.max(self.month)}")
         return '\n'.join(properties)
 
     def __len__(self):
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 255b57e..e9a11f1 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1702,9 +1702,9 @@ class spatial(object):
         properties.append(f"    extent: {extent}")
         shape = ', '.join(map(str, self.shape))
         properties.append(f"    shape: {shape}")
-        if self.month:
-            properties.append(f"    start_month: {min(self.month)}")
-            properties.append(f"    end_month: {max(self.month)}")
+        if np.any(self.month):
+            properties.append(f"    start_month: {np.min(self.month)}")
+            properties.append(f"    end_month: {np.max(self.month)}")
         return '\n'.join(properties)
 
     def __len__(self):
-- 
2.43.0


From d7ed31fc77f379b9932eb7411aac2a3b9f8c37cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 014/100] fix: build objects from lists with numpy 2.4

---
 gravity_toolkit/harmonics.py | 4 ++--
 gravity_toolkit/spatial.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index f469963..ca49735 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -663,8 +663,8 @@ class harmonics(object):
             self.clm[:,:,t] = object_list[i].clm[:self.lmax+1,:self.mmax+1]
             self.slm[:,:,t] = object_list[i].slm[:self.lmax+1,:self.mmax+1]
             if kwargs['date']:
-                self.time[t] = np.atleast_1d(object_list[i].time)
-                self.month[t] = np.atleast_1d(object_list[i].month)
+                self.time[t] = np.squeeze(object_list[i].time)
+                self.month[t] = np.squeeze(object_list[i].month)
             # append filename to list
             if getattr(object_list[i], 'filename'):
                 self.filename.append(object_list[i].filename)
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index e9a11f1..4c7ed4d 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -646,8 +646,8 @@ class spatial(object):
             if hasattr(object_list[i], 'error'):
                 self.error[:,:,t] = object_list[i].error[:,:].copy()
             if kwargs['date']:
-                self.time[t] = np.atleast_1d(object_list[i].time)
-                self.month[t] = np.atleast_1d(object_list[i].month)
+                self.time[t] = np.squeeze(object_list[i].time)
+                self.month[t] = np.squeeze(object_list[i].month)
             # append filename to list
             if getattr(object_list[i], 'filename'):
                 self.filename.append(object_list[i].filename)
-- 
2.43.0


From e54adc483685347fed05157a949c97eef0be8eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 015/100] fix: size of subsets with repeated months

---
 gravity_toolkit/harmonics.py | 4 ++--
 gravity_toolkit/spatial.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index ca49735..4568f9b 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1557,8 +1557,6 @@ class harmonics(object):
         """
         # check if months is an array or a single value
         months = np.atleast_1d(months)
-        # number of months
-        n = len(months)
         # check that all months are available
         months_check = list(set(months) - set(self.month))
         if months_check:
@@ -1566,6 +1564,8 @@ class harmonics(object):
             raise IOError(f'GRACE/GRACE-FO months {m} not Found')
         # indices to sort data objects
         months_list = [i for i,m in enumerate(self.month) if m in months]
+        # number of months
+        n = len(months_list)
         # output harmonics object
         temp = harmonics(lmax=np.copy(self.lmax), mmax=np.copy(self.mmax))
         # create output harmonics
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 4c7ed4d..f842f01 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1352,8 +1352,6 @@ class spatial(object):
         """
         # check if months is an array or a single value
         months = np.atleast_1d(months)
-        # number of months
-        n = len(months)
         # check that all months are available
         months_check = list(set(months) - set(self.month))
         if months_check:
@@ -1361,6 +1359,8 @@ class spatial(object):
             raise IOError(f'GRACE/GRACE-FO months {m} not Found')
         # indices to sort data objects
         months_list = [i for i,m in enumerate(self.month) if m in months]
+        # number of months
+        n = len(months_list)
         # output spatial object
         temp = self.zeros_like()
         # create output spatial object
-- 
2.43.0


From 801583f6f4c9ecf1c2f664d5ad815139a0dad9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 016/100] fix: keep dimensions of a series with a single month
 in adjust_months

---
 gravity_toolkit/time.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 908e293..0f5e571 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -349,6 +349,7 @@ def adjust_months(grace_month):
     For GSFC: Oct 2018 (202) is centered in Nov 2018 (203)
     """
     # verify dimensions
+    shape = np.shape(grace_month)
     grace_month = np.atleast_1d(grace_month)
     # number of months
     nmon = len(grace_month)
@@ -383,8 +384,8 @@ def adjust_months(grace_month):
         elif (mon == mp1) and ((mon == (mm1 + 2)) or (mp2 == (mp1 + 1))):
             # case where month should be -1
             m[j] = grace_month[j] - 1
-    # update months and remove singleton dimensions if necessary
-    return np.squeeze(m)
+    # update months with the dimensions of the input
+    return m.reshape(shape)
 
 # PURPOSE: convert calendar dates to GRACE/GRACE-FO months
 def calendar_to_grace(year,month=1,around=np.floor):
-- 
2.43.0


From d2d00518485d6408ff6dd0a68338c2834f7a0c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 017/100] fix: keep fill values of missing cells in spatial
 power

---
 gravity_toolkit/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index f842f01..d6dc65a 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1582,6 +1582,8 @@ class spatial(object):
         """
         temp = self.copy()
         temp.data = np.power(self.data,power)
+        # update mask
+        temp.update_mask()
         return temp
 
     def max(self):
-- 
2.43.0


From 357ba60445a15e5ca5bdace926fb8f5ace6687ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 018/100] fix: missing cells when removing the mean of spatial
 fields

---
 gravity_toolkit/spatial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index d6dc65a..e66ea48 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1496,6 +1496,9 @@ class spatial(object):
         if apply:
             for i,t in enumerate(self.time):
                 self.data[:,:,i] -= temp.data[:,:]
+                self.mask[:,:,i] |= temp.mask[:,:]
+            # cells without a mean are invalid
+            self.update_mask()
         # update mask
         temp.update_mask()
         return temp
-- 
2.43.0


From 5c9be709cb64566cea57e674f8f82b260ebac304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:35 +0000
Subject: [PATCH 019/100] fix: flipped and transposed spatial objects share
 data with the original

---
 gravity_toolkit/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index e66ea48..6dbadd9 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1524,7 +1524,8 @@ class spatial(object):
         # attempt to reverse possible data variables
         for key in ['data','mask','error']:
             try:
-                setattr(temp, key, np.flip(getattr(self, key), axis=axis))
+                val = np.flip(getattr(self, key), axis=axis)
+                setattr(temp, key, val.copy())
             except Exception as exc:
                 pass
         # update mask
@@ -1545,7 +1546,8 @@ class spatial(object):
         # attempt to transpose possible data variables
         for key in ['data','mask','error']:
             try:
-                setattr(temp, key, np.transpose(getattr(self, key), axes=axes))
+                val = np.transpose(getattr(self, key), axes=axes)
+                setattr(temp, key, val.copy())
             except Exception as exc:
                 pass
         # update mask
-- 
2.43.0


From 67a8c9afc686ce9eb0fb639f1155a8df300ce440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 020/100] fix: reverse months of spatial objects flipped along
 time

---
 gravity_toolkit/spatial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 6dbadd9..cfd21bf 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1521,6 +1521,7 @@ class spatial(object):
             temp.lon = temp.lon[::-1].copy()
         elif (axis == 2):
             temp.time = temp.time[::-1].copy()
+            temp.month = temp.month[::-1].copy()
         # attempt to reverse possible data variables
         for key in ['data','mask','error']:
             try:
-- 
2.43.0


From 141790e2c7ac659e0b1bb536d097cff0deb101dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 021/100] fix: longitude of the last column in extend_matrix

---
 gravity_toolkit/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index cfd21bf..0e9753d 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1261,7 +1261,7 @@ class spatial(object):
         temp.lon = np.zeros((nx+2), dtype=self.lon.dtype)
         temp.lon[0] = self.lon[0] - self.spacing[0]
         temp.lon[1:-1] = self.lon[:]
-        temp.lon[-1] = self.lon[-1] + self.spacing[1]
+        temp.lon[-1] = self.lon[-1] + self.spacing[0]
         # attempt to extend possible data variables
         for key in ['data','mask','error']:
             try:
-- 
2.43.0


From 3340bf81c61fbac3572fe3cdac69fb8482dffdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 022/100] fix: copy scaling_factors objects without errors

---
 gravity_toolkit/spatial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 0e9753d..c2584e1 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1175,7 +1175,7 @@ class spatial(object):
             self.mask |= (self.data == self.fill_value)
             self.mask |= np.isnan(self.data)
             self.data[self.mask] = self.fill_value
-            if hasattr(self, 'error'):
+            if getattr(self, 'error', None) is not None:
                 self.error[self.mask] = self.fill_value
         return self
 
@@ -1651,7 +1651,7 @@ class spatial(object):
         self.fill_value = fill_value
         # replace invalid values with new fill value
         self.data[self.mask] = self.fill_value
-        if hasattr(self, 'error'):
+        if getattr(self, 'error', None) is not None:
             self.error[self.mask] = self.fill_value
         return self
 
@@ -1661,7 +1661,7 @@ class spatial(object):
         """
         if (self.fill_value is not None):
             self.data[self.mask] = self.fill_value
-        if (self.fill_value is not None) and hasattr(self, 'error'):
+        if (self.fill_value is not None) and (getattr(self, 'error', None) is not None):
             self.error[self.mask] = self.fill_value
         return self
 
-- 
2.43.0


From 1f95c82549dfbca593edf4f7dccf4f75bf45dd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 023/100] fix: scaling factor errors where the residual of a
 month is zero

---
 gravity_toolkit/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index c2584e1..39d294f 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1986,9 +1986,9 @@ class scaling_factors(spatial):
         val2 = np.sum(temp1.data[indy,indx,:]**2,axis=1)
         temp.data[indy,indx] = val1/val2
         # calculate difference between scaled and original
-        variance = temp1.scale(temp.data).offset(-temp2.data)
+        variance = temp1.data*temp.data[:,:,None] - temp2.data
         # calculate scaling factor errors as RMS of variance
-        temp.error = np.sqrt((variance.sum(power=2).data)/nt)
+        temp.error = np.sqrt(np.sum(variance**2,axis=2)/nt)
         # calculate magnitude of original data
         temp.magnitude = temp2.sum(power=2.0).power(0.5).data[:]
         # update mask
-- 
2.43.0


From c90ddb7c9713dbba4f48ce4758082f3b6d4328c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 024/100] fix: time column of dates read from ascii grids

---
 gravity_toolkit/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 39d294f..5ec2685 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -276,7 +276,7 @@ class spatial(object):
         self.data = np.zeros((nlat, nlon))
         self.mask = np.zeros((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
-        columns = [c for c in kwargs['columns'] if (c != 'time')]
+        columns = [c for c in kwargs['columns'] if date or (c != 'time')]
         # extract spatial data array and convert to matrix
         # for each line in the file
         header = kwargs['header']
-- 
2.43.0


From 55eddb43a785556073a4a66642ed9292c1b8205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 025/100] fix: cells not in ascii grid files are invalid

---
 gravity_toolkit/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 5ec2685..f15671c 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -274,7 +274,8 @@ class spatial(object):
         nlon = len(self.lon)
         # output spatial data
         self.data = np.zeros((nlat, nlon))
-        self.mask = np.zeros((nlat, nlon), dtype=bool)
+        # (grid cells are invalid unless included in the file)
+        self.mask = np.ones((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
         columns = [c for c in kwargs['columns'] if date or (c != 'time')]
         # extract spatial data array and convert to matrix
@@ -1895,7 +1896,8 @@ class scaling_factors(spatial):
         nlon = len(self.lon)
         # output spatial data
         self.data = np.zeros((nlat, nlon))
-        self.mask = np.zeros((nlat, nlon), dtype=bool)
+        # (grid cells are invalid unless included in the file)
+        self.mask = np.ones((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
         columns = [c for c in kwargs['columns'] if (c != 'time')]
         # extract spatial data array and convert to matrix
-- 
2.43.0


From 3c9db1ec9c2ea4960259842f31ced1331e43f236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 026/100] fix: grids from extent and spacing in spatial
 from_ascii

---
 gravity_toolkit/spatial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index f15671c..5ed3177 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -261,8 +261,8 @@ class spatial(object):
         elif (None not in kwargs['extent']) and (None not in kwargs['spacing']):
             extent = kwargs.get('extent')
             dlon, dlat = kwargs.get('spacing')
-            self.lat = np.arange(extent[3], extent[2] - dlat, dlat)
-            self.lon = np.arange(extent[0], extent[1] + dlon, dlon)
+            self.lat = np.arange(extent[3], extent[2] - dlat/2.0, -dlat)
+            self.lon = np.arange(extent[0], extent[1] + dlon/2.0, dlon)
         elif kwargs['nlat'] and kwargs['nlon'] and (None not in kwargs['spacing']):
             dlon, dlat = kwargs.get('spacing')
             self.lat = np.zeros((kwargs['nlat']))
@@ -1883,8 +1883,8 @@ class scaling_factors(spatial):
         elif (None not in kwargs['extent']) and (None not in kwargs['spacing']):
             extent = kwargs.get('extent')
             dlon, dlat = kwargs.get('spacing')
-            self.lat = np.arange(extent[3], extent[2] - dlat, dlat)
-            self.lon = np.arange(extent[0], extent[1] + dlon, dlon)
+            self.lat = np.arange(extent[3], extent[2] - dlat/2.0, -dlat)
+            self.lon = np.arange(extent[0], extent[1] + dlon/2.0, dlon)
         elif kwargs['nlat'] and kwargs['nlon'] and (None not in kwargs['spacing']):
             dlon, dlat = kwargs.get('spacing')
             self.lat = np.zeros((kwargs['nlat']))
-- 
2.43.0


From 7905d0c3a81435a4c8c73d5adb73a38c4cab0e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 027/100] fix: grid indices of ascii files at fine spacings

---
 gravity_toolkit/spatial.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 5ed3177..2619db2 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -286,8 +286,9 @@ class spatial(object):
             # convert fortran exponentials if applicable
             d = {c:r.replace('D','E') for c,r in zip(columns,rx.findall(line))}
             # convert line coordinates to integers
-            ilon = np.int64(np.float64(d['lon'])/dlon)
-            ilat = np.int64((90.0 - np.float64(d['lat']))//dlat)
+            # (allowing for the precision of the coordinates)
+            ilon = np.int64(np.floor(np.float64(d['lon'])/dlon + 0.01))
+            ilat = np.int64(np.floor((90.0 - np.float64(d['lat']))/dlat + 0.01))
             self.data[ilat, ilon] = np.float64(d['data'])
             self.mask[ilat, ilon] = False
             self.lon[ilon] = np.float64(d['lon'])
@@ -1908,8 +1909,9 @@ class scaling_factors(spatial):
             # convert fortran exponentials if applicable
             d = {c:r.replace('D','E') for c,r in zip(columns,rx.findall(line))}
             # convert line coordinates to integers
-            ilon = np.int64(np.float64(d['lon'])/dlon)
-            ilat = np.int64((90.0-np.float64(d['lat']))//dlat)
+            # (allowing for the precision of the coordinates)
+            ilon = np.int64(np.floor(np.float64(d['lon'])/dlon + 0.01))
+            ilat = np.int64(np.floor((90.0 - np.float64(d['lat']))/dlat + 0.01))
             # get scaling factor, error and magnitude
             self.data[ilat,ilon] = np.float64(d['data'])
             self.error[ilat,ilon] = np.float64(d['error'])
-- 
2.43.0


From d330bd78d0d7c35b7d47228e1f275f7a6d9c7971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 028/100] fix: transpose of square grids read from netCDF4 and
 HDF5

---
 gravity_toolkit/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 2619db2..1666d84 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -404,7 +404,8 @@ class spatial(object):
         fileID.close()
         # switching data array to lat/lon if lon/lat
         sz = self.data.shape
-        if (self.data.ndim == 2) and (len(self.lon) == sz[0]):
+        if (self.data.ndim == 2) and (sz != (len(self.lat), len(self.lon))) \
+                and (len(self.lon) == sz[0]):
             self.data = self.data.T
         # set fill value and mask
         if '_FillValue' in self.attributes['data'].keys():
@@ -528,7 +529,8 @@ class spatial(object):
         fileID.close()
         # switching data array to lat/lon if lon/lat
         sz = self.data.shape
-        if (self.data.ndim == 2) and (len(self.lon) == sz[0]):
+        if (self.data.ndim == 2) and (sz != (len(self.lat), len(self.lon))) \
+                and (len(self.lon) == sz[0]):
             self.data = self.data.T
         # set fill value and mask
         if '_FillValue' in self.attributes['data'].keys():
-- 
2.43.0


From a46e516251a0b7c257471cf9b0a7940e66708283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 029/100] fix: read scaling factors from ascii files

---
 gravity_toolkit/spatial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 1666d84..68e42e1 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1899,6 +1899,8 @@ class scaling_factors(spatial):
         nlon = len(self.lon)
         # output spatial data
         self.data = np.zeros((nlat, nlon))
+        self.error = np.zeros((nlat, nlon))
+        self.magnitude = np.zeros((nlat, nlon))
         # (grid cells are invalid unless included in the file)
         self.mask = np.ones((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
@@ -1915,7 +1917,7 @@ class scaling_factors(spatial):
             ilon = np.int64(np.floor(np.float64(d['lon'])/dlon + 0.01))
             ilat = np.int64(np.floor((90.0 - np.float64(d['lat']))/dlat + 0.01))
             # get scaling factor, error and magnitude
-            self.data[ilat,ilon] = np.float64(d['data'])
+            self.data[ilat,ilon] = np.float64(d['kfactor'])
             self.error[ilat,ilon] = np.float64(d['error'])
             self.magnitude[ilat,ilon] = np.float64(d['magnitude'])
             # set mask
-- 
2.43.0


From 1b73a8866d5356f509c0ebf97eb7b1560981469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 030/100] fix: Fourier coefficients of Legendre functions for
 odd degrees and truncated orders

---
 gravity_toolkit/fourier_legendre.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/fourier_legendre.py b/gravity_toolkit/fourier_legendre.py
index 6cc8b5c..9667caa 100755
--- a/gravity_toolkit/fourier_legendre.py
+++ b/gravity_toolkit/fourier_legendre.py
@@ -48,6 +48,11 @@ def fourier_legendre(lmax, mmax):
         Fourier coefficients
     """
 
+    # calculate for an even maximum degree and for all orders
+    # as the recursions use every fourier coefficient
+    output_lmax = np.copy(lmax)
+    lmax = np.maximum(lmax + (lmax % 2), 4)
+    mmax = np.copy(lmax)
     # allocate for output fourier coefficients
     plm = np.zeros((lmax+1,lmax+1,lmax+1))
     l_even = np.arange(0,lmax+1,2)
@@ -208,8 +213,10 @@ def fourier_legendre(lmax, mmax):
             dfactor = np.sqrt((l+m+4.0)*(l+m+3.0)/(2.0*l+5.0))
             plm[l+2,m+2,m_odd] = (p1 - p2 + p3) / dfactor
 
-    # return the fourier coefficients
-    return plm
+    # no terms with m > l
+    plm[0,1,:] = 0.0
+    # return the fourier coefficients truncated to the output degree
+    return plm[:output_lmax+1,:output_lmax+1,:output_lmax+1]
 
 def legendre_gradient(lmax, mmax):
     """
-- 
2.43.0


From 3182cc5b389cf53e4954474564c8456483d3f992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 031/100] fix: poles, odd degrees and truncated orders in
 Fourier analysis of grids

---
 gravity_toolkit/gen_harmonics.py | 98 ++++++++++++++++----------------
 1 file changed, 50 insertions(+), 48 deletions(-)

diff --git a/gravity_toolkit/gen_harmonics.py b/gravity_toolkit/gen_harmonics.py
index 8044f69..013f54f 100644
--- a/gravity_toolkit/gen_harmonics.py
+++ b/gravity_toolkit/gen_harmonics.py
@@ -280,33 +280,35 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
     # Because the function is defined on (0,pi)
     # it can be expanded in just cosine terms.
     # this routine assumes that 0 and pi are not included
-    theta_cc = np.zeros((MMAX+1,MMAX+1))
-    theta_sc = np.zeros((MMAX+1,MMAX+1))
+    theta_cc = np.zeros((MMAX+1,LMAX+1))
+    theta_sc = np.zeros((MMAX+1,LMAX+1))
     m_even = np.arange(0,MMAX+1,2)
-    m_odd = np.arange(1,MMAX,2)
-    n_even = len(m_even)
-    n_odd = len(m_odd)
+    m_odd = np.arange(1,MMAX+1,2)
+    # fourier terms to LMAX
+    nn = np.arange(LMAX+1)[:, np.newaxis]
+    n_even = np.arange(0,LMAX+1,2)
+    n_odd = np.arange(1,LMAX+1,2)
 
     if np.isclose([theta[0],theta[nlat-1]],[0.0,np.pi]).all():
         # non-endpoints
-        nt = np.dot(mm,theta[1:nlat-1][np.newaxis,:])
+        nt = np.dot(nn,theta[1:nlat-1][np.newaxis,:])
         theta_cc[m_even,:] = 2.0*np.dot(dcos[m_even,1:nlat-1],np.cos(nt).T)
         theta_sc[m_even,:] = 2.0*np.dot(dsin[m_even,1:nlat-1],np.cos(nt).T)
         theta_cc[m_odd,:] = 2.0*np.dot(dcos[m_odd,1:nlat-1],np.sin(nt).T)
         theta_sc[m_odd,:] = 2.0*np.dot(dsin[m_odd,1:nlat-1],np.sin(nt).T)
 
         # endpoints
-        theta_cc[m_even,:] += np.dot((dcos[m_even,0]*np.cos(theta[0]) +
-            dcos[m_even,nlat-1]*np.cos(theta[nlat-1]))[:,np.newaxis], mm.T)
-        theta_sc[m_even,:] += np.dot((dsin[m_even,0]*np.cos(theta[0]) +
-            dsin[m_even,nlat-1]*np.cos(theta[nlat-1]))[:,np.newaxis], mm.T)
-        theta_cc[m_odd,:] += np.dot((dcos[m_odd,0]*np.sin(theta[0]) +
-            dcos[m_odd,nlat-1]*np.sin(theta[nlat-1]))[:,np.newaxis], mm.T)
-        theta_sc[m_odd,:] += np.dot((dsin[m_odd,0]*np.sin(theta[0]) +
-            dsin[m_odd,nlat-1]*np.sin(theta[nlat-1]))[:,np.newaxis], mm.T)
+        theta_cc[m_even,:] += np.dot(dcos[m_even][:,[0,nlat-1]],
+            np.cos(np.dot(nn,theta[[0,nlat-1]][np.newaxis,:])).T)
+        theta_sc[m_even,:] += np.dot(dsin[m_even][:,[0,nlat-1]],
+            np.cos(np.dot(nn,theta[[0,nlat-1]][np.newaxis,:])).T)
+        theta_cc[m_odd,:] += np.dot(dcos[m_odd][:,[0,nlat-1]],
+            np.sin(np.dot(nn,theta[[0,nlat-1]][np.newaxis,:])).T)
+        theta_sc[m_odd,:] += np.dot(dsin[m_odd][:,[0,nlat-1]],
+            np.sin(np.dot(nn,theta[[0,nlat-1]][np.newaxis,:])).T)
 
     elif not np.isclose([theta[0],theta[nlat-1]],[0.0,np.pi]).any():
-        nt = np.dot(mm,theta[np.newaxis,:])
+        nt = np.dot(nn,theta[np.newaxis,:])
         theta_cc[m_even,:] = 2.0*np.dot(dcos[m_even,:],np.cos(nt).T)
         theta_sc[m_even,:] = 2.0*np.dot(dsin[m_even,:],np.cos(nt).T)
         theta_cc[m_odd,:] = 2.0*np.dot(dcos[m_odd,:],np.sin(nt).T)
@@ -316,9 +318,9 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
 
     # Normalize theta fourier coefficients
     theta_cc[:,0] = theta_cc[:,0]/(2.0*nlat)
-    theta_cc[:,1:MMAX+1] = theta_cc[:,1:MMAX+1]/nlat
+    theta_cc[:,1:LMAX+1] = theta_cc[:,1:LMAX+1]/nlat
     theta_sc[:,0] = theta_sc[:,0]/(2.0*nlat)
-    theta_sc[:,1:MMAX+1] = theta_sc[:,1:MMAX+1]/nlat
+    theta_sc[:,1:LMAX+1] = theta_sc[:,1:LMAX+1]/nlat
 
     # Correct normalization for the incomplete coverage of the sphere
     delphi = np.abs(phi[1]-phi[0])
@@ -348,48 +350,48 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
     # n and k must have like parities
 
     # m = even terms
-    k_even = np.zeros((n_even,n_even))
-    for n in range(0,MMAX+2,2):
-        k_even[:,n//2] = 0.5*(1.0/(1.0-m_even-n) + 1.0/(1.0+m_even-n) +
-            1.0/(1.0-m_even+n) + 1.0/(1.0+m_even+n))
+    k_even = np.zeros((len(n_even),len(n_even)))
+    for n in n_even:
+        k_even[:,n//2] = 0.5*(1.0/(1.0-n_even-n) + 1.0/(1.0+n_even-n) +
+            1.0/(1.0-n_even+n) + 1.0/(1.0+n_even+n))
 
-    k_odd = np.zeros((n_odd,n_odd))
-    for n in range(1,MMAX+1,2):
-        k_odd[:,(n-1)//2] = 0.5*(1.0/(1-m_odd-n) + 1.0/(1+m_odd-n) +
-            1.0/(1-m_odd+n) + 1.0/(1+m_odd+n))
+    k_odd = np.zeros((len(n_odd),len(n_odd)))
+    for n in n_odd:
+        k_odd[:,(n-1)//2] = 0.5*(1.0/(1-n_odd-n) + 1.0/(1+n_odd-n) +
+            1.0/(1-n_odd+n) + 1.0/(1+n_odd+n))
 
     # calculate spherical harmonics for m == even terms
     l_even = np.arange(0,LMAX+1,2)
-    l_odd = np.arange(1,LMAX,2)
-    for m in range(0,MMAX+2,2):
-        temp = np.dot(plm[l_even,m,m_even[:,np.newaxis]].T,k_even)
-        Ylms.clm[l_even,m] = np.dot(theta_cc[m,m_even[:,np.newaxis]].T,temp.T)
-        Ylms.slm[l_even,m] = np.dot(theta_sc[m,m_even[:,np.newaxis]].T,temp.T)
-        temp = np.dot(plm[l_odd,m,m_odd[:,np.newaxis]].T,k_odd)
-        Ylms.clm[l_odd,m] = np.dot(theta_cc[m,m_odd[:,np.newaxis]].T,temp.T)
-        Ylms.slm[l_odd,m] = np.dot(theta_sc[m,m_odd[:,np.newaxis]].T,temp.T)
+    l_odd = np.arange(1,LMAX+1,2)
+    for m in range(0,MMAX+1,2):
+        temp = np.dot(plm[l_even,m,n_even[:,np.newaxis]].T,k_even)
+        Ylms.clm[l_even,m] = np.dot(theta_cc[m,n_even[:,np.newaxis]].T,temp.T)
+        Ylms.slm[l_even,m] = np.dot(theta_sc[m,n_even[:,np.newaxis]].T,temp.T)
+        temp = np.dot(plm[l_odd,m,n_odd[:,np.newaxis]].T,k_odd)
+        Ylms.clm[l_odd,m] = np.dot(theta_cc[m,n_odd[:,np.newaxis]].T,temp.T)
+        Ylms.slm[l_odd,m] = np.dot(theta_sc[m,n_odd[:,np.newaxis]].T,temp.T)
 
     # m = odd terms
-    k_even = np.zeros((n_even,n_even))
-    for n in range(0,MMAX+2,2):
-        k_even[:,n//2] = 0.5*(-1.0/(1-m_even-n) + 1.0/(1.0+m_even-n) +
-            1.0/(1.0-m_even+n) - 1.0/(1.0+m_even+n))
+    k_even = np.zeros((len(n_even),len(n_even)))
+    for n in n_even:
+        k_even[:,n//2] = 0.5*(-1.0/(1-n_even-n) + 1.0/(1.0+n_even-n) +
+            1.0/(1.0-n_even+n) - 1.0/(1.0+n_even+n))
 
-    k_odd = np.zeros((n_odd,n_odd))
-    for n in range(1,MMAX+1,2):
-        k_odd[:,(n-1)//2] = 0.5*(-1.0/(1-m_odd-n) + 1.0/(1.0+m_odd-n) +
-            1.0/(1.0-m_odd+n) - 1.0/(1.0+m_odd+n))
+    k_odd = np.zeros((len(n_odd),len(n_odd)))
+    for n in n_odd:
+        k_odd[:,(n-1)//2] = 0.5*(-1.0/(1-n_odd-n) + 1.0/(1.0+n_odd-n) +
+            1.0/(1.0-n_odd+n) - 1.0/(1.0+n_odd+n))
 
     # calculate spherical harmonics for m == odd terms
     l_even = np.arange(2,LMAX+1,2)# do not in include l=0
-    l_odd = np.arange(1,LMAX,2)
+    l_odd = np.arange(1,LMAX+1,2)
     for m in range(1,MMAX+1,2):
-        temp = np.dot(plm[l_even,m,m_even[:,np.newaxis]].T,k_even)
-        Ylms.clm[l_even,m] = np.dot(theta_cc[m,m_even[:,np.newaxis]].T,temp.T)
-        Ylms.slm[l_even,m] = np.dot(theta_sc[m,m_even[:,np.newaxis]].T,temp.T)
-        temp = np.dot(plm[l_odd,m,m_odd[:,np.newaxis]].T,k_odd)
-        Ylms.clm[l_odd,m] = np.dot(theta_cc[m,m_odd[:,np.newaxis]].T,temp.T)
-        Ylms.slm[l_odd,m] = np.dot(theta_sc[m,m_odd[:,np.newaxis]].T,temp.T)
+        temp = np.dot(plm[l_even,m,n_even[:,np.newaxis]].T,k_even)
+        Ylms.clm[l_even,m] = np.dot(theta_cc[m,n_even[:,np.newaxis]].T,temp.T)
+        Ylms.slm[l_even,m] = np.dot(theta_sc[m,n_even[:,np.newaxis]].T,temp.T)
+        temp = np.dot(plm[l_odd,m,n_odd[:,np.newaxis]].T,k_odd)
+        Ylms.clm[l_odd,m] = np.dot(theta_cc[m,n_odd[:,np.newaxis]].T,temp.T)
+        Ylms.slm[l_odd,m] = np.dot(theta_sc[m,n_odd[:,np.newaxis]].T,temp.T)
 
     # Divide by Plm normalization
     Ylms.clm[:,0] /= 2.0
-- 
2.43.0


From a55f45a597b594d632fac827b9b41f35259bbd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 032/100] fix: Fourier coefficients of zonal gradients

---
 gravity_toolkit/fourier_legendre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/fourier_legendre.py b/gravity_toolkit/fourier_legendre.py
index 9667caa..15877be 100755
--- a/gravity_toolkit/fourier_legendre.py
+++ b/gravity_toolkit/fourier_legendre.py
@@ -274,7 +274,7 @@ def legendre_gradient(lmax, mmax):
         lminus2 = np.arange(l-2,-1,-1)# from l-2 to 0
         lminus1 = np.arange(l-1,0,-1)# from l-1 to 1
         wlm[l,m,:] = np.sqrt(dfactor) * \
-            np.dot(np.diag(np.sqrt(lminus2*lminus1/4.0)), plm[l,m+1,:])
+            np.dot(np.diag(np.sqrt(lminus2*lminus1/4.0)), plm[l-1,m+1,:])
 
     # m-1 terms, m-1=0 has different coefficients
     # m=1 term
@@ -288,7 +288,7 @@ def legendre_gradient(lmax, mmax):
         lplus2 = np.arange(l+2,2*l+1)# from l+2 to 2*l
         lplus1 = np.arange(l+1,2*l)# from l+1 to (2*l-1)
         wlm[l,m,:] += np.sqrt(dfactor) * \
-            np.dot(np.diag(np.sqrt(lplus2*lplus1)/4.0), plm[l-1,m-1,:])
+            np.dot(np.diag(np.sqrt(lplus2*lplus1/4.0)), plm[l-1,m-1,:])
     # normalizations
     for l in range(1, lmax+1):
         wlm[l,:,:] /= np.sqrt((l+1)*l)
-- 
2.43.0


From dba7f92e2d725126c8031e1014cab7d0a279194f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:36 +0000
Subject: [PATCH 033/100] fix: phase and sign of gradients of spherical
 harmonic fields

---
 gravity_toolkit/harmonic_gradients.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gravity_toolkit/harmonic_gradients.py b/gravity_toolkit/harmonic_gradients.py
index dfc5ae3..70cf07e 100644
--- a/gravity_toolkit/harmonic_gradients.py
+++ b/gravity_toolkit/harmonic_gradients.py
@@ -102,10 +102,10 @@ def harmonic_gradients(clm1, slm1, lon, lat,
     vlm, wlm = legendre_gradient(LMAX, MMAX)
 
     dlm = np.zeros((LMAX+1,LMAX+1,2))
-    # minus sign is because lat and theta change with opposite sign
+    # lat and theta change with opposite sign (sign is within vlm)
     for l in range(0,LMAX+1):
-        dlm[l,:,0] = -clm[l,:]*np.sqrt((l+1.0)*l)
-        dlm[l,:,1] = -slm[l,:]*np.sqrt((l+1.0)*l)
+        dlm[l,:,0] = clm[l,:]*np.sqrt((l+1.0)*l)
+        dlm[l,:,1] = slm[l,:]*np.sqrt((l+1.0)*l)
 
     m_even = np.arange(0,MMAX+2,2)
     m_odd = np.arange(1,MMAX,2)
@@ -127,8 +127,8 @@ def harmonic_gradients(clm1, slm1, lon, lat,
 
     d_cos[m_even,:,0] = np.dot(wtmp[:,:,1],np.transpose(snk))
     d_sin[m_even,:,0] = np.dot(-wtmp[:,:,0],np.transpose(snk))
-    d_cos[m_even,:,1] = np.dot(vtmp[:,:,1],np.transpose(snk))
-    d_sin[m_even,:,1] = np.dot(-vtmp[:,:,0],np.transpose(snk))
+    d_cos[m_even,:,1] = np.dot(vtmp[:,:,0],np.transpose(snk))
+    d_sin[m_even,:,1] = np.dot(vtmp[:,:,1],np.transpose(snk))
 
     # m = odd terms (vlm,wlm cosine series)
     wtmp = np.zeros((len(m_odd),LMAX+1,2))
@@ -141,8 +141,8 @@ def harmonic_gradients(clm1, slm1, lon, lat,
 
     d_cos[m_odd,:,0] = np.dot(wtmp[:,:,1],np.transpose(cnk))
     d_sin[m_odd,:,0] = np.dot(-wtmp[:,:,0],np.transpose(cnk))
-    d_cos[m_odd,:,1] = np.dot(vtmp[:,:,1],np.transpose(cnk))
-    d_sin[m_odd,:,1] = np.dot(-vtmp[:,:,0],np.transpose(cnk))
+    d_cos[m_odd,:,1] = np.dot(vtmp[:,:,0],np.transpose(cnk))
+    d_sin[m_odd,:,1] = np.dot(vtmp[:,:,1],np.transpose(cnk))
 
     # Calculating cos(m*phi) and sin(m*phi)
     ccos = np.cos(np.dot(mm,phi))
-- 
2.43.0


From 5c23e66b6b56095b51b0fd0e4c14e70b59d3771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:46 +0000
Subject: [PATCH 034/100] fix: gradients of harmonics for odd or truncated
 orders

---
 gravity_toolkit/harmonic_gradients.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gravity_toolkit/harmonic_gradients.py b/gravity_toolkit/harmonic_gradients.py
index 70cf07e..489b320 100644
--- a/gravity_toolkit/harmonic_gradients.py
+++ b/gravity_toolkit/harmonic_gradients.py
@@ -101,18 +101,18 @@ def harmonic_gradients(clm1, slm1, lon, lat,
     # generate Vlm coefficients (vlm and wlm)
     vlm, wlm = legendre_gradient(LMAX, MMAX)
 
-    dlm = np.zeros((LMAX+1,LMAX+1,2))
+    dlm = np.zeros((LMAX+1,MMAX+1,2))
     # lat and theta change with opposite sign (sign is within vlm)
     for l in range(0,LMAX+1):
         dlm[l,:,0] = clm[l,:]*np.sqrt((l+1.0)*l)
         dlm[l,:,1] = slm[l,:]*np.sqrt((l+1.0)*l)
 
-    m_even = np.arange(0,MMAX+2,2)
-    m_odd = np.arange(1,MMAX,2)
+    m_even = np.arange(0,MMAX+1,2)
+    m_odd = np.arange(1,MMAX+1,2)
 
     # Calculate fourier coefficients from legendre coefficients
-    d_cos = np.zeros((LMAX+1,thmax,2))
-    d_sin = np.zeros((LMAX+1,thmax,2))
+    d_cos = np.zeros((MMAX+1,thmax,2))
+    d_sin = np.zeros((MMAX+1,thmax,2))
     cnk = np.cos(np.dot(th[:,np.newaxis],ll))
     snk = np.sin(np.dot(th[:,np.newaxis],ll))
 
-- 
2.43.0


From d401b1a4ce4fe2b85511c3c76efa403fbc37211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:56 +0000
Subject: [PATCH 035/100] fix: lower bound of degrees for geostrophic currents

---
 gravity_toolkit/harmonic_gradients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/harmonic_gradients.py b/gravity_toolkit/harmonic_gradients.py
index 489b320..439bba7 100644
--- a/gravity_toolkit/harmonic_gradients.py
+++ b/gravity_toolkit/harmonic_gradients.py
@@ -251,8 +251,8 @@ def geostrophic_currents(clm1, slm1, lon, lat,
     # Truncating harmonics to degree and order LMAX
     # removing coefficients below LMIN and above MMAX
     mm = np.arange(0, MMAX+1)
-    clm[LMIN:LMAX+1,mm,:] = clm[LMIN:LMAX+1,mm,:]
-    slm[LMIN:LMAX+1,mm,:] = slm[LMIN:LMAX+1,mm,:]
+    clm[:LMIN,:,:] = 0.0
+    slm[:LMIN,:,:] = 0.0
 
     # Calculate fourier coefficients from legendre coefficients
     d_cos = np.zeros((MMAX+1,thmax,2))# [m,th]
-- 
2.43.0


From c45cef78e0bc75fdc9747cadf7717ba7c512b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 036/100] fix: keep radius and uncertainties in copies of
 geocenter objects

---
 gravity_toolkit/geocenter.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index c5355e6..e1a6f4b 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -167,7 +167,7 @@ class geocenter(object):
             file_contents=[i for i in f.read().splitlines() if not re.match(r'#',i)]
         # extract X,Y,Z from each line in the file
         n_lines = len(file_contents)
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         temp.X = np.zeros((n_lines))
         temp.Y = np.zeros((n_lines))
         temp.Z = np.zeros((n_lines))
@@ -792,8 +792,8 @@ class geocenter(object):
         # set default keyword arguments
         kwargs.setdefault('fields',['time','month',
             'C10','C11','S11','eC10','eC11','eS11',
-            'X','Y','Z'])
-        temp = geocenter()
+            'X','Y','Z','X_sigma','Y_sigma','Z_sigma'])
+        temp = geocenter(radius=self.radius)
         # try to assign variables to self
         for key in kwargs['fields']:
             try:
@@ -1077,7 +1077,7 @@ class geocenter(object):
         indices: int, default Ellipsis
             indices of input ``geocenter`` object to compute mean
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         # calculate mean static field
         temp.C10 = np.mean(self.C10[indices])
         temp.C11 = np.mean(self.C11[indices])
@@ -1163,7 +1163,7 @@ class geocenter(object):
         var: float
             scalar value to which the ``geocenter`` object will be multiplied
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         temp.time = np.copy(self.time)
         temp.month = np.copy(self.month)
         # multiply by a single constant or a time-variable scalar
@@ -1181,7 +1181,7 @@ class geocenter(object):
         power: float
             power to which the ``geocenter`` object will be raised
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         temp.time = np.copy(self.time)
         temp.month = np.copy(self.month)
         temp.C10 = np.power(self.C10,power)
@@ -1233,7 +1233,7 @@ class geocenter(object):
     def __next__(self):
         """Get the next month of data
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         try:
             temp.time = self.time[self.__index__].copy()
             temp.month = self.month[self.__index__].copy()
-- 
2.43.0


From ddb853600531859a9c4a121dbfaee98a0abe255f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:40 +0000
Subject: [PATCH 037/100] fix: read SLR geocenter files without dealiasing
 products

---
 gravity_toolkit/geocenter.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index e1a6f4b..56f2573 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -343,12 +343,13 @@ class geocenter(object):
 
         # directory setup for AOD1b data starting with input degree 1 file
         # this will verify that the input paths work
-        base_dir = self.filename.parent.parent
-        self.directory = base_dir.joinpath('AOD1B', kwargs['release'], 'geocenter')
-        # check that AOD1B directory exists
-        if not self.directory.exists():
-            msg = f'{str(self.directory)} not found in file system'
-            raise FileNotFoundError(msg)
+        if kwargs['AOD']:
+            base_dir = self.filename.parent.parent
+            self.directory = base_dir.joinpath('AOD1B', kwargs['release'], 'geocenter')
+            # check that AOD1B directory exists
+            if not self.directory.exists():
+                msg = f'{str(self.directory)} not found in file system'
+                raise FileNotFoundError(msg)
 
         # Input geocenter file and split lines
         with self.filename.open(mode='r', encoding='utf8') as f:
-- 
2.43.0


From 1eb0bec27b27d45d5efbc86ad6304b66cf3dc760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 038/100] fix: propagated errors of piecewise regressions with
 known errors

---
 gravity_toolkit/time_series/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index e234900..3f31f0d 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -311,7 +311,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
         NORMEQ = np.dot(Hinv,np.transpose(DMAT))
         temp_err = np.zeros((n_terms))
         for i in range(0,n_terms):
-            temp_err[i] = np.sum((NORMEQ[i,:]*P_err)**2)
+            temp_err[i] = np.sqrt(np.sum((NORMEQ[i,:]*P_err)**2))
         # Recalculating beta2 error
         beta_err = np.copy(temp_err)
         beta_err[2] = np.sqrt(temp_err[1]**2 + temp_err[2]**2)
-- 
2.43.0


From f2719b0b8c97581c213a16babceb0f1ae4028bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:43 +0000
Subject: [PATCH 039/100] fix: breakpoint between dates in piecewise
 regressions

---
 gravity_toolkit/time_series/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index 3f31f0d..50f4a26 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -180,7 +180,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
         tco = t_in[BREAKPOINT]
         nco = np.squeeze(BREAKPOINT)
     elif BREAK_TIME is not None:
-        nco = np.argmin(np.abs(t_in - BREAK_TIME))
+        nco = np.count_nonzero(t_in < BREAK_TIME)
         tco = np.copy(BREAK_TIME)
 
     # create design matrix for sharp breakpoint piecewise regression
-- 
2.43.0


From 75e8667f36612f2ef657fb713911f170acc448af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 040/100] fix: return the trend of piecewise regressions with
 known errors

---
 gravity_toolkit/time_series/piecewise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index 50f4a26..4b99894 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -300,7 +300,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
 
         return {'beta':beta_out, 'error':beta_err, 'R2':rsquare,
             'R2Adj':rsq_adj, 'WSSE':WSSE, 'AIC':AIC, 'BIC':BIC,
-            'LOGLIK':log_lik, 'model':mod, 'residual':res,
+            'LOGLIK':log_lik, 'model':mod, 'simple':simple, 'residual':res,
             'N':n_terms, 'DOF':nu, 'cov_mat':Hinv}
 
     elif ((not WEIGHT) and (DATA_ERR != 0)):
@@ -321,7 +321,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
 
         return {'beta':beta_out, 'error':beta_err, 'R2':rsquare,
             'R2Adj':rsq_adj, 'MSE':MSE, 'AIC':AIC, 'BIC':BIC,
-            'LOGLIK':log_lik, 'model':mod, 'residual':res,
+            'LOGLIK':log_lik, 'model':mod, 'simple':simple, 'residual':res,
             'N':n_terms, 'DOF':nu, 'cov_mat':Hinv}
     else:
         # STANDARD LEAST-SQUARES CASE
-- 
2.43.0


From f84da0a7f2d394fe6dd5aec3dd3d328b7145486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:03 +0000
Subject: [PATCH 041/100] fix: regressions keep the input data errors

---
 gravity_toolkit/time_series/piecewise.py | 1 +
 gravity_toolkit/time_series/regress.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index 4b99894..67f5c00 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -212,6 +212,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
         # check if any error values are 0 (prevent infinite weights)
         if np.count_nonzero(DATA_ERR == 0.0):
             # change to minimum floating point value
+            DATA_ERR = np.copy(DATA_ERR)
             DATA_ERR[DATA_ERR == 0.0] = np.finfo(np.float64).eps
         # Weight Precision
         wi = np.squeeze(DATA_ERR**(-2))
diff --git a/gravity_toolkit/time_series/regress.py b/gravity_toolkit/time_series/regress.py
index bca9ecd..d97c1a3 100755
--- a/gravity_toolkit/time_series/regress.py
+++ b/gravity_toolkit/time_series/regress.py
@@ -223,6 +223,7 @@ def regress(t_in, d_in, ORDER=1, CYCLES=[0.5,1.0], TERMS=[],
         # check if any error values are 0 (prevent infinite weights)
         if np.count_nonzero(DATA_ERR == 0.0):
             # change to minimum floating point value
+            DATA_ERR = np.copy(DATA_ERR)
             DATA_ERR[DATA_ERR == 0.0] = np.finfo(np.float64).eps
         # Weight Precision
         wi = np.squeeze(DATA_ERR**(-2))
-- 
2.43.0


From af32a45724d27953c901410420ed71df27c03148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:11 +0000
Subject: [PATCH 042/100] fix: Savitzky-Golay filter without removed numpy
 matrices

---
 gravity_toolkit/time_series/savitzky_golay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/time_series/savitzky_golay.py b/gravity_toolkit/time_series/savitzky_golay.py
index a95e4a0..ccf8e23 100644
--- a/gravity_toolkit/time_series/savitzky_golay.py
+++ b/gravity_toolkit/time_series/savitzky_golay.py
@@ -123,10 +123,10 @@ def savitzky_golay(t_in, y_in, WINDOW=None, ORDER=2, DERIV=0,
     for n in range(0, (nmax-(2*half_window))):
         yran = y_in[n + np.arange(0, 2*half_window+1)]
         # Vandermonde matrix for the time-series
-        b = np.mat([[(t_in[k]-t_in[n+half_window])**i for i in order_range]
+        b = np.array([[(t_in[k]-t_in[n+half_window])**i for i in order_range]
             for k in range(n, n+2*half_window+1)])
         # compute the pseudoinverse of the design matrix
-        m=np.linalg.pinv(b).A[DERIV]*RATE**DERIV*scipy.special.factorial(DERIV)
+        m=np.linalg.pinv(b)[DERIV]*RATE**DERIV*scipy.special.factorial(DERIV)
         # pad the signal at the extremes with values taken from the signal
         firstvals = yran[0] - np.abs(yran[1:half_window+1][::-1] - yran[0])
         lastvals = yran[-1] + np.abs(yran[-half_window-1:-1][::-1] - yran[-1])
-- 
2.43.0


From c2c3bdc0a325ff25402c3d9904838872879b5cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:35 +0000
Subject: [PATCH 043/100] fix: keep the last tabulated degree of load Love
 numbers

---
 gravity_toolkit/read_love_numbers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_love_numbers.py b/gravity_toolkit/read_love_numbers.py
index f1b2f44..f579127 100755
--- a/gravity_toolkit/read_love_numbers.py
+++ b/gravity_toolkit/read_love_numbers.py
@@ -204,7 +204,7 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
     # if needing to linearly extrapolate Love/Shida numbers
     # NOTE: use caution if extrapolating far beyond the
     # maximum degree of the Love/Shida numbers dataset
-    for lint in range(l,LMAX+1):
+    for lint in range(l+1,LMAX+1):
         # linearly extrapolate to maximum degree
         for n in ('hl','kl','ll'):
             love[n][lint] = 2.0*love[n][lint-1] - love[n][lint-2]
-- 
2.43.0


From 96f220c1f558a5be23ac59f76d10c07cc3955c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 044/100] fix: maximum degree from Love numbers with Fortran
 exponents

---
 gravity_toolkit/read_love_numbers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_love_numbers.py b/gravity_toolkit/read_love_numbers.py
index f579127..f2cc9fe 100755
--- a/gravity_toolkit/read_love_numbers.py
+++ b/gravity_toolkit/read_love_numbers.py
@@ -154,7 +154,7 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
     rx = re.compile(regex_pattern, re.VERBOSE)
 
     # extract maximum spherical harmonic degree from final line in file
-    degree = rx.findall(file_contents[-1])[COLUMNS.index('l')]
+    degree = rx.findall(file_contents[-1].replace('D','E'))[COLUMNS.index('l')]
     if LMAX is None and (degree == 'inf'):
         LMAX = np.copy(_default_max_degree)
     elif LMAX is None:
-- 
2.43.0


From e0b6fc44e8383b3e10a831bd98ab226f1098abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:54 +0000
Subject: [PATCH 045/100] fix: interpolate load Love numbers to degrees between
 tabulated values

---
 gravity_toolkit/read_love_numbers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_love_numbers.py b/gravity_toolkit/read_love_numbers.py
index f2cc9fe..6c12e31 100755
--- a/gravity_toolkit/read_love_numbers.py
+++ b/gravity_toolkit/read_love_numbers.py
@@ -171,6 +171,8 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
         love[n] = np.zeros((LMAX+1))
     # check if needing to interpolate between degrees
     flag = np.ones((LMAX+1),dtype=bool)
+    # first tabulated degree after the maximum degree
+    upper = {}
     # for each line in the file (skipping header lines)
     for file_line in file_contents[HEADER:]:
         # find numerical instances in line
@@ -189,6 +191,11 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
                 love[n][l] = np.float64(love_numbers[COLUMNS.index(n)])
             # set interpolation flag for degree
             flag[l] = False
+        elif not upper:
+            # save Love/Shida numbers for interpolating to LMAX
+            upper['l'] = l
+            for n in ('hl','kl','ll'):
+                upper[n] = np.float64(love_numbers[COLUMNS.index(n)])
 
     # return Love/Shida numbers in output format
     if (LMAX == 0):
@@ -199,7 +206,8 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
         # linearly interpolate following Wahr (1998)
         for n in ('hl','kl','ll'):
             love[n][flag] = np.interp(love['l'][flag],
-                love['l'][~flag], love[n][~flag])
+                np.append(love['l'][~flag], upper.get('l',[])),
+                np.append(love[n][~flag], upper.get(n,[])))
 
     # if needing to linearly extrapolate Love/Shida numbers
     # NOTE: use caution if extrapolating far beyond the
-- 
2.43.0


From 2424127c4cd126b22e7c967e09dd505eaa249a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 046/100] fix: keep the input longitudes of mascons

---
 gravity_toolkit/mascons.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/mascons.py b/gravity_toolkit/mascons.py
index 2a8f08c..dc2d4ea 100644
--- a/gravity_toolkit/mascons.py
+++ b/gravity_toolkit/mascons.py
@@ -64,6 +64,7 @@ def to_gsfc(gdata, lon, lat, lon_center, lat_center, lon_span, lat_span):
     nmas = len(lon_center)
     # convert mascon centers to -180:180
     gt180, = np.nonzero(lon_center > 180)
+    lon_center = np.array(lon_center, dtype=np.float64)
     lon_center[gt180] -= 360.0
     # remove singleton dimensions
     lat = np.squeeze(lat)
@@ -220,6 +221,7 @@ def from_gsfc(mscdata, grid_spacing, lon_center, lat_center, lon_span, lat_span,
     nmas = len(lon_center)
     # convert mascon centers to -180:180
     gt180, = np.nonzero(lon_center > 180)
+    lon_center = np.array(lon_center, dtype=np.float64)
     lon_center[gt180] -= 360.0
 
     # Define output latitude and longitude grids
-- 
2.43.0


From 6e7502bf4a64e90ab8decd96ae924a1b3090e89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:54 +0000
Subject: [PATCH 047/100] fix: average of JPL mascons independent of the grid
 spacing

---
 gravity_toolkit/mascons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/mascons.py b/gravity_toolkit/mascons.py
index dc2d4ea..6c5aac4 100644
--- a/gravity_toolkit/mascons.py
+++ b/gravity_toolkit/mascons.py
@@ -161,7 +161,7 @@ def to_jpl(gdata, lon, lat, lon_bound, lat_bound):
         I,J = (I[np.newaxis,:], J[:,np.newaxis])
         # calculate average data for mascon bin
         mascon_array['data'][k] = np.mean((np.cos(lat[I]*np.pi/180.0) /
-            np.mean(np.cos(lat[I]*np.pi/180.0)))*gdata[I,J]/nlt)
+            np.mean(np.cos(lat[I]*np.pi/180.0)))*gdata[I,J])
         # calculate coordinates of mascon center
         mascon_array['lat'][k] = (lat_bound[k,1]+lat_bound[k,0])/2.0
         mascon_array['lon'][k] = (lon_bound[k,1]+lon_bound[k,2])/2.0
-- 
2.43.0


From 7ddef359d7f4e38679c061dd21dc7c317361f1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 048/100] fix: GSFC mascons of grids with longitudes from 0 to
 360

---
 gravity_toolkit/mascons.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/mascons.py b/gravity_toolkit/mascons.py
index 6c5aac4..f6470ad 100644
--- a/gravity_toolkit/mascons.py
+++ b/gravity_toolkit/mascons.py
@@ -69,6 +69,8 @@ def to_gsfc(gdata, lon, lat, lon_center, lat_center, lon_span, lat_span):
     # remove singleton dimensions
     lat = np.squeeze(lat)
     lon = np.squeeze(lon)
+    # convert grid longitudes to -180:180
+    lon = np.where(lon > 180, lon - 360.0, lon)
     # for mascons centered on 180: use 0:360
     alon = np.copy(lon)
     lt0, = np.nonzero(lon < 0)
-- 
2.43.0


From e595c852062a9bd73f8267a6a513947bca8deb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:31 +0000
Subject: [PATCH 049/100] fix: drift rates of GRACE RL04 beyond the truncation

---
 gravity_toolkit/read_GRACE_harmonics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/read_GRACE_harmonics.py b/gravity_toolkit/read_GRACE_harmonics.py
index 4a628e8..b53fbc8 100644
--- a/gravity_toolkit/read_GRACE_harmonics.py
+++ b/gravity_toolkit/read_GRACE_harmonics.py
@@ -233,8 +233,10 @@ def read_GRACE_harmonics(input_file, LMAX, **kwargs):
             l1 = np.int64(line_contents[1])
             m1 = np.int64(line_contents[2])
             # Reading Drift rates for low degree harmonics
-            drift_c[l1,m1] = np.float64(line_contents[3])
-            drift_s[l1,m1] = np.float64(line_contents[4])
+            # if degree and order are below the truncation limits
+            if ((l1 <= LMAX) and (m1 <= MMAX)):
+                drift_c[l1,m1] = np.float64(line_contents[3])
+                drift_s[l1,m1] = np.float64(line_contents[4])
 
     # Adding drift rates to clm and slm for RL04
     # if drift rates exist at any time, will add to harmonics
-- 
2.43.0


From 0871e103e0ca89c6e9928fcd220f2913fbbfc54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 050/100] fix: dates of SLR files from one-element arrays

---
 gravity_toolkit/SLR/C20.py            | 4 ++--
 gravity_toolkit/SLR/C30.py            | 2 +-
 gravity_toolkit/SLR/C50.py            | 2 +-
 gravity_toolkit/read_SLR_harmonics.py | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gravity_toolkit/SLR/C20.py b/gravity_toolkit/SLR/C20.py
index 992018f..4836936 100644
--- a/gravity_toolkit/SLR/C20.py
+++ b/gravity_toolkit/SLR/C20.py
@@ -330,7 +330,7 @@ def C20(SLR_file, AOD=True, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                dinput['time'][t] = gravity_toolkit.time.convert_calendar_decimal(
+                dinput['time'][t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 dinput['data'][t] = np.float64(line_contents[2])
@@ -390,7 +390,7 @@ def C20(SLR_file, AOD=True, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                date_conv[t] = gravity_toolkit.time.convert_calendar_decimal(
+                date_conv[t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 C20_input[t] = np.float64(line_contents[2])
diff --git a/gravity_toolkit/SLR/C30.py b/gravity_toolkit/SLR/C30.py
index 84c2dda..3cd9d3b 100644
--- a/gravity_toolkit/SLR/C30.py
+++ b/gravity_toolkit/SLR/C30.py
@@ -161,7 +161,7 @@ def C30(SLR_file, C30_MEAN=9.5717395773300e-07, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                dinput['time'][t] = gravity_toolkit.time.convert_calendar_decimal(
+                dinput['time'][t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 dinput['data'][t] = np.float64(line_contents[5])
diff --git a/gravity_toolkit/SLR/C50.py b/gravity_toolkit/SLR/C50.py
index af93dad..53dff90 100644
--- a/gravity_toolkit/SLR/C50.py
+++ b/gravity_toolkit/SLR/C50.py
@@ -143,7 +143,7 @@ def C50(SLR_file, C50_MEAN=0.0, DATE=None, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                dinput['time'][t] = gravity_toolkit.time.convert_calendar_decimal(
+                dinput['time'][t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 dinput['data'][t] = np.float64(line_contents[10])
diff --git a/gravity_toolkit/read_SLR_harmonics.py b/gravity_toolkit/read_SLR_harmonics.py
index 9d596fe..39259b9 100644
--- a/gravity_toolkit/read_SLR_harmonics.py
+++ b/gravity_toolkit/read_SLR_harmonics.py
@@ -208,7 +208,7 @@ def read_CSR_monthly_6x1(SLR_file, SCALE=1e-10, HEADER=True):
         Ylms['MJD'][d] = np.mean(np.array(line_contents[5:7],dtype=np.float64))
         # date of the mid-point of the arc given in years
         YY,MM = np.array(line_contents[3:5])
-        Ylms['time'][d] = gravity_toolkit.time.convert_calendar_decimal(YY,MM)
+        Ylms['time'][d], = gravity_toolkit.time.convert_calendar_decimal(YY,MM)
         # add 1 to counter
         count += 1
 
-- 
2.43.0


From 387927415a4fc1345a3ecfc6b430b04a6a0369b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:50 +0000
Subject: [PATCH 051/100] fix: monthly solutions of the SLR C20 files

---
 gravity_toolkit/SLR/C20.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gravity_toolkit/SLR/C20.py b/gravity_toolkit/SLR/C20.py
index 4836936..4d39422 100644
--- a/gravity_toolkit/SLR/C20.py
+++ b/gravity_toolkit/SLR/C20.py
@@ -424,17 +424,17 @@ def C20(SLR_file, AOD=True, HEADER=True):
             count = np.count_nonzero(mon == dinput['month'][t])
             # there is only one solution for the month
             if (count == 1):
-                i = np.nonzero(mon == dinput['month'][t])
-                dinput['time'][t] = date_conv[i]
-                dinput['data'][t] = C20_input[i]
-                dinput['error'][t] = eC20_input[i]
+                i, = np.nonzero(mon == dinput['month'][t])
+                dinput['time'][t], = date_conv[i]
+                dinput['data'][t], = C20_input[i]
+                dinput['error'][t], = eC20_input[i]
             # there is a special solution for the month
             # will the solution flagged with slr_flag
             elif (count == 2):
-                i = np.nonzero((mon == dinput['month'][t]) & slr_flag)
-                dinput['time'][t] = date_conv[i]
-                dinput['data'][t] = C20_input[i]
-                dinput['error'][t] = eC20_input[i]
+                i, = np.nonzero((mon == dinput['month'][t]) & slr_flag)
+                dinput['time'][t], = date_conv[i]
+                dinput['data'][t], = C20_input[i]
+                dinput['error'][t], = eC20_input[i]
 
     # The 'Special Months' (Nov 2011, Dec 2011 and April 2012) with
     # Accelerometer shutoffs make the relation between month number
-- 
2.43.0


From f79de7b8c599e6985dbd3d9fba7a8057570f761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:01 +0000
Subject: [PATCH 052/100] fix: read SLR harmonics from a file name

---
 gravity_toolkit/read_SLR_harmonics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gravity_toolkit/read_SLR_harmonics.py b/gravity_toolkit/read_SLR_harmonics.py
index 39259b9..6cfb376 100644
--- a/gravity_toolkit/read_SLR_harmonics.py
+++ b/gravity_toolkit/read_SLR_harmonics.py
@@ -88,6 +88,7 @@ def read_SLR_harmonics(SLR_file, **kwargs):
     **kwargs: dict
         keyword arguments for input readers
     """
+    SLR_file = pathlib.Path(SLR_file).expanduser().absolute()
     if bool(re.search(r'gsfc_slr_5x5c61s61', SLR_file.name, re.I)):
         return read_GSFC_weekly_6x1(SLR_file, **kwargs)
     elif bool(re.search(r'CSR_Monthly_5x5_Gravity_Harmonics', SLR_file.name, re.I)):
-- 
2.43.0


From 31bba40960a812859465c4c73dfbb83826ef9dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 053/100] fix: maximum order of GIA models from MMAX

---
 gravity_toolkit/read_GIA_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_GIA_model.py b/gravity_toolkit/read_GIA_model.py
index 39da6de..b3ef229 100755
--- a/gravity_toolkit/read_GIA_model.py
+++ b/gravity_toolkit/read_GIA_model.py
@@ -719,7 +719,7 @@ class gia(harmonics):
         kwargs.setdefault('verbose',False)
         # catch case where MMAX is entered
         if ('MMAX' in kwargs.keys()):
-            kwargs['mmax'] = np.copy(kwargs['mmax'])
+            kwargs['mmax'] = np.copy(kwargs['MMAX'])
         # read data from GIA file
         Ylms = read_GIA_model(self.filename, GIA=kwargs['GIA'],
             LMAX=self.lmax, MMAX=kwargs['mmax'])
-- 
2.43.0


From 4c616de4b6dd6e431d508e5385397b1326d31587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:20 +0000
Subject: [PATCH 054/100] fix: date files with a single month

---
 gravity_toolkit/grace_find_months.py  | 3 ++-
 gravity_toolkit/grace_months_index.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/grace_find_months.py b/gravity_toolkit/grace_find_months.py
index 2105fb0..c190383 100644
--- a/gravity_toolkit/grace_find_months.py
+++ b/gravity_toolkit/grace_find_months.py
@@ -118,7 +118,8 @@ def grace_find_months(base_dir, PROC, DREL, DSET='GSM'):
     dtype = np.dtype({'names':names, 'formats':formats})
     # read GRACE/GRACE-FO date ascii file
     # skip the header row and extract dates (decimal format) and months
-    date_input = np.loadtxt(grace_date_file, skiprows=1, dtype=dtype)
+    date_input = np.loadtxt(grace_date_file, skiprows=1, dtype=dtype,
+        ndmin=1)
     # date info dictionary
     var_info = {}
     var_info['time'] = date_input['t']
diff --git a/gravity_toolkit/grace_months_index.py b/gravity_toolkit/grace_months_index.py
index 00531d7..135c5b9 100644
--- a/gravity_toolkit/grace_months_index.py
+++ b/gravity_toolkit/grace_months_index.py
@@ -123,7 +123,7 @@ def grace_months_index(base_dir, DREL=['RL06','rl06v2.0'], MODE=None):
                 var_name = f'{pr}_{rl}'
                 # skip the header line
                 var_info[var_name] = np.loadtxt(grace_date_file,
-                    skiprows=1, dtype=dtype)
+                    skiprows=1, dtype=dtype, ndmin=1)
                 # Finding the maximum month measured
                 if (var_info[var_name]['mon'].max() > max_mon):
                     # if the maximum month in this dataset is greater
-- 
2.43.0


From cac8457e63c586caab27af8652db124d24e4185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:39 +0000
Subject: [PATCH 055/100] fix: place replacement coefficients as scalars in
 monthly fields

---
 gravity_toolkit/grace_input_months.py | 38 +++++++++++++--------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index b4cb61d..8cda0bf 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -683,8 +683,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C20_input['month'] == grace_month)
             if (count != 0):
                 k, = np.nonzero(C20_input['month'] == grace_month)
-                grace_Ylms['clm'][2,0,i] = np.copy(C20_input['data'][k])
-                grace_Ylms['eclm'][2,0,i] = np.copy(C20_input['error'][k])
+                grace_Ylms['clm'][2,0,i] = np.squeeze(C20_input['data'][k])
+                grace_Ylms['eclm'][2,0,i] = np.squeeze(C20_input['error'][k])
 
     # Replace C21/S21 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_21'] in ('CSR','GFZ','GSFC'):
@@ -698,10 +698,10 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C21_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C21_input['month'] == grace_month)
-                grace_Ylms['clm'][2,1,i] = np.copy(C21_input['C2m'][k])
-                grace_Ylms['slm'][2,1,i] = np.copy(C21_input['S2m'][k])
-                grace_Ylms['eclm'][2,1,i] = np.copy(C21_input['eC2m'][k])
-                grace_Ylms['eslm'][2,1,i] = np.copy(C21_input['eS2m'][k])
+                grace_Ylms['clm'][2,1,i] = np.squeeze(C21_input['C2m'][k])
+                grace_Ylms['slm'][2,1,i] = np.squeeze(C21_input['S2m'][k])
+                grace_Ylms['eclm'][2,1,i] = np.squeeze(C21_input['eC2m'][k])
+                grace_Ylms['eslm'][2,1,i] = np.squeeze(C21_input['eS2m'][k])
 
     # Replace C22/S22 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_22'] in ('CSR','GSFC'):
@@ -715,10 +715,10 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C22_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C22_input['month'] == grace_month)
-                grace_Ylms['clm'][2,2,i] = np.copy(C22_input['C2m'][k])
-                grace_Ylms['slm'][2,2,i] = np.copy(C22_input['S2m'][k])
-                grace_Ylms['eclm'][2,2,i] = np.copy(C22_input['eC2m'][k])
-                grace_Ylms['eslm'][2,2,i] = np.copy(C22_input['eS2m'][k])
+                grace_Ylms['clm'][2,2,i] = np.squeeze(C22_input['C2m'][k])
+                grace_Ylms['slm'][2,2,i] = np.squeeze(C22_input['S2m'][k])
+                grace_Ylms['eclm'][2,2,i] = np.squeeze(C22_input['eC2m'][k])
+                grace_Ylms['eslm'][2,2,i] = np.squeeze(C22_input['eS2m'][k])
 
     # Replace C30 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_C30'] in ('CSR','GFZ','GSFC','LARES'):
@@ -732,8 +732,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C30_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C30_input['month'] == grace_month)
-                grace_Ylms['clm'][3,0,i] = np.copy(C30_input['data'][k])
-                grace_Ylms['eclm'][3,0,i] = np.copy(C30_input['error'][k])
+                grace_Ylms['clm'][3,0,i] = np.squeeze(C30_input['data'][k])
+                grace_Ylms['eclm'][3,0,i] = np.squeeze(C30_input['error'][k])
 
     # Replace C40 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_C40'] in ('CSR','GSFC','LARES'):
@@ -747,8 +747,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C40_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C40_input['month'] == grace_month)
-                grace_Ylms['clm'][4,0,i] = np.copy(C40_input['data'][k])
-                grace_Ylms['eclm'][4,0,i] = np.copy(C40_input['error'][k])
+                grace_Ylms['clm'][4,0,i] = np.squeeze(C40_input['data'][k])
+                grace_Ylms['eclm'][4,0,i] = np.squeeze(C40_input['error'][k])
 
     # Replace C50 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_C50'] in ('CSR','GSFC','LARES'):
@@ -762,8 +762,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C50_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C50_input['month'] == grace_month)
-                grace_Ylms['clm'][5,0,i] = np.copy(C50_input['data'][k])
-                grace_Ylms['eclm'][5,0,i] = np.copy(C50_input['error'][k])
+                grace_Ylms['clm'][5,0,i] = np.squeeze(C50_input['data'][k])
+                grace_Ylms['eclm'][5,0,i] = np.squeeze(C50_input['error'][k])
 
     # Use Degree 1 coefficients
     # Tellus: Tellus Degree 1 (PO.DAAC following Sun et al., 2016)
@@ -799,9 +799,9 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
                 grace_Ylms['clm'][1,1,i] = np.copy(C11_model[i])
                 grace_Ylms['slm'][1,1,i] = np.copy(S11_model[i])
             else:# using coefficients from data file
-                grace_Ylms['clm'][1,0,i] = np.copy(DEG1_input.C10[k])
-                grace_Ylms['clm'][1,1,i] = np.copy(DEG1_input.C11[k])
-                grace_Ylms['slm'][1,1,i] = np.copy(DEG1_input.S11[k])
+                grace_Ylms['clm'][1,0,i] = np.squeeze(DEG1_input.C10[k])
+                grace_Ylms['clm'][1,1,i] = np.squeeze(DEG1_input.C11[k])
+                grace_Ylms['slm'][1,1,i] = np.squeeze(DEG1_input.S11[k])
 
     # read and add/remove the GAE and GAF atmospheric correction coefficients
     if kwargs['ATM']:
-- 
2.43.0


From cfeec7e4fe66bc2bd4322305d41fa13d157e98f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:48 +0000
Subject: [PATCH 056/100] fix: size atmospheric corrections by maximum order

---
 gravity_toolkit/grace_input_months.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index 8cda0bf..eaeec64 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -894,8 +894,8 @@ def read_ecmwf_corrections(base_dir, LMAX, months, MMAX=None):
 
     # create output atmospheric corrections to be removed/added to data
     atm_corr = {}
-    atm_corr['clm'] = np.zeros((LMAX+1, LMAX+1, n_cons))
-    atm_corr['slm'] = np.zeros((LMAX+1, LMAX+1, n_cons))
+    atm_corr['clm'] = np.zeros((LMAX+1, MMAX+1, n_cons))
+    atm_corr['slm'] = np.zeros((LMAX+1, MMAX+1, n_cons))
     atm_corr['files'] = sorted(corr_file.values())
     # for each considered date
     for i,grace_month in enumerate(months):
-- 
2.43.0


From b5063c996aec4860685b52f428ca17b0c8b55587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:57 +0000
Subject: [PATCH 057/100] fix: geocenter file given as string in
 grace_input_months

---
 gravity_toolkit/grace_input_months.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index eaeec64..50980c4 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -588,7 +588,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
                 f'TN-13_GEOC_{PROC}_{DREL}.txt')
             JPL = True
         # read degree one files from JPL GRACE Tellus
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_tellus(DEG1_file,JPL=JPL)
@@ -630,7 +630,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         default_geocenter = base_dir.joinpath('geocenter',
             '{0}_{1}_{2}_{3}.txt'.format(*args))
         # read degree one files from Sutterley and Velicogna (2019)
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_UCI(DEG1_file)
@@ -641,7 +641,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         default_geocenter = base_dir.joinpath('geocenter',
             f'gad_gsm.{DREL}.txt')
         # read degree one files from Swenson et al. (2008)
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_swenson(DEG1_file)
@@ -653,7 +653,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         default_geocenter = base_dir.joinpath('geocenter',
             'GRAVIS-2B_GFZOP_GEOCENTER_0003.dat')
         # read degree one files from GFZ GravIS
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_gravis(DEG1_file)
-- 
2.43.0


From ddf6120fee8a1fb5be2bbff926920b309440a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:09 +0000
Subject: [PATCH 058/100] fix: base directory given as string in
 read_ecmwf_corrections

---
 gravity_toolkit/grace_input_months.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index 50980c4..0c60457 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -855,6 +855,8 @@ def read_ecmwf_corrections(base_dir, LMAX, months, MMAX=None):
     files: list
         atmospheric correction files
     """
+    # directory with correction files
+    base_dir = pathlib.Path(base_dir).expanduser().absolute()
     # correction files
     corr_file = {}
     corr_file['GAE'] = 'TN-08_GAE-2_2006032-2010031_0000_EIGEN_G---_0005.gz'
-- 
2.43.0


From ee98b4139a95e4ec5993a937aed31fbf6360b16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 059/100] fix: regress_model without cyclical terms

---
 gravity_toolkit/grace_input_months.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index 0c60457..b6eb34a 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -958,7 +958,7 @@ def regress_model(t_in, d_in, t_out, ORDER=2, CYCLES=None, RELATIVE=0.0):
         DMAT.append((t_in-RELATIVE)**o)
         MMAT.append((t_out-RELATIVE)**o)
     # add cyclical terms (0.5=semi-annual, 1=annual)
-    for c in CYCLES:
+    for c in (CYCLES or []):
         DMAT.append(np.sin(2.0*np.pi*t_in/np.float64(c)))
         DMAT.append(np.cos(2.0*np.pi*t_in/np.float64(c)))
         MMAT.append(np.sin(2.0*np.pi*t_out/np.float64(c)))
-- 
2.43.0


From 5c24a1260755c88a16022b46f43710bbd56a9efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:33 +0000
Subject: [PATCH 060/100] fix: name of C30 attribute for the CSR LARES product

---
 gravity_toolkit/grace_input_months.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index b6eb34a..e592740 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -499,7 +499,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         # read SLR file
         C30_input = gravity_toolkit.SLR.C30(SLR_file)
         FLAGS.append('_wLARES_C30')
-        attributes['SLR_C30'] = ('CSR LARES', SLR_file.name)
+        attributes['SLR C30'] = ('CSR LARES', SLR_file.name)
     elif (kwargs['SLR_C30'] == 'GFZ'):
         GravIS_file = 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat'
         SLR_file = base_dir.joinpath(GravIS_file)
-- 
2.43.0


From 3878fe341b3b79d07ac33842c3b495a6d4fdcaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 061/100] fix: read SLR harmonic files with a single month

---
 gravity_toolkit/SLR/C20.py | 2 +-
 gravity_toolkit/SLR/C30.py | 2 +-
 gravity_toolkit/SLR/C40.py | 2 +-
 gravity_toolkit/SLR/C50.py | 2 +-
 gravity_toolkit/SLR/CS2.py | 4 ++--
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gravity_toolkit/SLR/C20.py b/gravity_toolkit/SLR/C20.py
index 4d39422..45068b5 100644
--- a/gravity_toolkit/SLR/C20.py
+++ b/gravity_toolkit/SLR/C20.py
@@ -160,7 +160,7 @@ def C20(SLR_file, AOD=True, HEADER=True):
         dtype['names'] = ('time','C20','delta','sigma','AOD','start','end')
         dtype['formats'] = ('f','f8','f','f','f','f','f')
         # header text is commented and won't be read
-        file_input = np.loadtxt(SLR_file, dtype=dtype)
+        file_input = np.loadtxt(SLR_file, dtype=dtype, ndmin=1)
         # date and GRACE/GRACE-FO month
         dinput['time'] = file_input['time']
         dinput['month'] = gravity_toolkit.time.calendar_to_grace(dinput['time'])
diff --git a/gravity_toolkit/SLR/C30.py b/gravity_toolkit/SLR/C30.py
index 3cd9d3b..7ba909d 100644
--- a/gravity_toolkit/SLR/C30.py
+++ b/gravity_toolkit/SLR/C30.py
@@ -180,7 +180,7 @@ def C30(SLR_file, C30_MEAN=9.5717395773300e-07, HEADER=True):
             dinput[key] = val[:t]
     elif bool(re.search(r'C30_LARES', SLR_file.name, re.I)):
         # read LARES filtered values
-        LARES_input = np.loadtxt(SLR_file,skiprows=1)
+        LARES_input = np.loadtxt(SLR_file,skiprows=1,ndmin=2)
         dinput['time'] = LARES_input[:,0].copy()
         # convert C30 from anomalies to absolute
         dinput['data'] = 1e-10*LARES_input[:,1] + C30_MEAN
diff --git a/gravity_toolkit/SLR/C40.py b/gravity_toolkit/SLR/C40.py
index b1dd7ab..1c21c7f 100644
--- a/gravity_toolkit/SLR/C40.py
+++ b/gravity_toolkit/SLR/C40.py
@@ -97,7 +97,7 @@ def C40(SLR_file, C40_MEAN=0.0, DATE=None, **kwargs):
         dinput['error'] = np.zeros_like(DATE,dtype='f8')
     elif bool(re.search(r'C40_LARES', SLR_file.name, re.I)):
         # read LARES filtered values
-        LARES_input = np.loadtxt(SLR_file, skiprows=1)
+        LARES_input = np.loadtxt(SLR_file, skiprows=1, ndmin=2)
         dinput['time'] = LARES_input[:,0].copy()
         # convert C40 from anomalies to absolute
         dinput['data'] = 1e-10*LARES_input[:,1] + C40_MEAN
diff --git a/gravity_toolkit/SLR/C50.py b/gravity_toolkit/SLR/C50.py
index 53dff90..16dbe45 100644
--- a/gravity_toolkit/SLR/C50.py
+++ b/gravity_toolkit/SLR/C50.py
@@ -169,7 +169,7 @@ def C50(SLR_file, C50_MEAN=0.0, DATE=None, HEADER=True):
         dinput['error'] = np.zeros_like(DATE,dtype='f8')
     elif bool(re.search(r'C50_LARES', SLR_file.name, re.I)):
         # read LARES filtered values
-        LARES_input = np.loadtxt(SLR_file, skiprows=1)
+        LARES_input = np.loadtxt(SLR_file, skiprows=1, ndmin=2)
         dinput['time'] = LARES_input[:,0].copy()
         # convert C50 from anomalies to absolute
         dinput['data'] = 1e-10*LARES_input[:,1] + C50_MEAN
diff --git a/gravity_toolkit/SLR/CS2.py b/gravity_toolkit/SLR/CS2.py
index 372fad2..ee75225 100644
--- a/gravity_toolkit/SLR/CS2.py
+++ b/gravity_toolkit/SLR/CS2.py
@@ -134,7 +134,7 @@ def CS2(SLR_file, ORDER=1, DATE=None, HEADER=True):
         # Column 1: Approximate mid-point of 7-day solution (years)
         # Column 2: Solution from SLR (normalized)
         # Column 3: Solution from SLR (normalized)
-        content = np.loadtxt(SLR_file, dtype=dtype)
+        content = np.loadtxt(SLR_file, dtype=dtype, ndmin=1)
         # duplicate time and harmonics
         tdec = np.repeat(content['time'],7)
         c2m = np.repeat(content['C2'],7)
@@ -199,7 +199,7 @@ def CS2(SLR_file, ORDER=1, DATE=None, HEADER=True):
         # Column 6: Mean value of Atmosphere-Ocean De-aliasing model (1E-10)
         # Column 7: Mean value of Atmosphere-Ocean De-aliasing model (1E-10)
         # Columns 8-9: Start and end dates of data used in solution
-        content = np.loadtxt(SLR_file, dtype=dtype)
+        content = np.loadtxt(SLR_file, dtype=dtype, ndmin=1)
         # date and GRACE/GRACE-FO month
         dinput['time'] = content['time'].copy()
         dinput['month'] = gravity_toolkit.time.calendar_to_grace(dinput['time'])
-- 
2.43.0


From 030f1e53eca0ddea40f9072f10a6c05bbe34edbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:19 +0000
Subject: [PATCH 062/100] fix: maximum order of maps in combine_harmonics

---
 scripts/combine_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/combine_harmonics.py b/scripts/combine_harmonics.py
index 17df8b3..825a42b 100644
--- a/scripts/combine_harmonics.py
+++ b/scripts/combine_harmonics.py
@@ -282,7 +282,7 @@ def combine_harmonics(INPUT_FILE, OUTPUT_FILE,
         Ylms.convolve(dfactor*wt)
         # convert spherical harmonics to output spatial grid
         grid.data[:,:,t] = gravtk.harmonic_summation(Ylms.clm, Ylms.slm,
-            grid.lon, grid.lat, LMAX=LMAX, PLM=PLM).T
+            grid.lon, grid.lat, LMAX=LMAX, MMAX=MMAX, PLM=PLM).T
 
     # outputting data to file
     grid.squeeze().to_file(filename=OUTPUT_FILE, format=dataform,
-- 
2.43.0


From e048861f3cc26be3a8136523925f546d41efd968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 063/100] fix: mean files with index formats in
 combine_harmonics

---
 scripts/combine_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/combine_harmonics.py b/scripts/combine_harmonics.py
index 825a42b..da0f9ff 100644
--- a/scripts/combine_harmonics.py
+++ b/scripts/combine_harmonics.py
@@ -182,7 +182,7 @@ def combine_harmonics(INPUT_FILE, OUTPUT_FILE,
     # remove mean file from input Ylms
     if MEAN_FILE:
         mean_Ylms = gravtk.harmonics().from_file(MEAN_FILE,
-            format=DATAFORM, date=False)
+            format=dataform, date=False)
         input_Ylms.subtract(mean_Ylms)
 
     # read arrays of kl, hl, and ll Love Numbers
-- 
2.43.0


From 34be7b7fa54da6409b71b4caf1a1bd114e2e8fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 064/100] fix: ascii output of single fields in
 convert_harmonics

---
 scripts/convert_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/convert_harmonics.py b/scripts/convert_harmonics.py
index bc9b97a..48a5c92 100644
--- a/scripts/convert_harmonics.py
+++ b/scripts/convert_harmonics.py
@@ -209,7 +209,7 @@ def convert_harmonics(INPUT_FILE, OUTPUT_FILE,
     Ylms.attributes['ROOT'] = copy.copy(attributes)
 
     # outputting data to file
-    Ylms.to_file(OUTPUT_FILE, format=DATAFORM, date=DATE)
+    Ylms.squeeze().to_file(OUTPUT_FILE, format=DATAFORM, date=DATE)
     # change output permissions level to MODE
     OUTPUT_FILE.chmod(mode=MODE)
 
-- 
2.43.0


From 042651d792b985139b8e527651e801fd91b7e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:52 +0000
Subject: [PATCH 065/100] fix: name of removed files in grace_spatial_maps and
 grace_raster_grids

---
 scripts/grace_raster_grids.py | 2 +-
 scripts/grace_spatial_maps.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/grace_raster_grids.py b/scripts/grace_raster_grids.py
index af4db8e..e243830 100644
--- a/scripts/grace_raster_grids.py
+++ b/scripts/grace_raster_grids.py
@@ -363,7 +363,7 @@ def grace_raster_grids(base_dir, PROC, DREL, DSET, LMAX, RAD,
                 # HDF5 (.H5)
                 Ylms = gravtk.harmonics().from_file(REMOVE_FILE,
                     format=REMOVEFORM)
-                attributes['ROOT']['lineage'].append(Ylms.name)
+                attributes['ROOT']['lineage'].append(Ylms.filename.name)
             elif REMOVEFORM in ('index-ascii','index-netCDF4','index-HDF5'):
                 # read from index file
                 _,removeform = REMOVEFORM.split('-')
diff --git a/scripts/grace_spatial_maps.py b/scripts/grace_spatial_maps.py
index ea65903..151c2c2 100755
--- a/scripts/grace_spatial_maps.py
+++ b/scripts/grace_spatial_maps.py
@@ -370,7 +370,7 @@ def grace_spatial_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
                 # HDF5 (.H5)
                 Ylms = gravtk.harmonics().from_file(REMOVE_FILE,
                     format=REMOVEFORM)
-                attributes['lineage'].append(Ylms.name)
+                attributes['lineage'].append(Ylms.filename.name)
             elif REMOVEFORM in ('index-ascii','index-netCDF4','index-HDF5'):
                 # read from index file
                 _,removeform = REMOVEFORM.split('-')
-- 
2.43.0


From 653189a1d112cf9294c14aff2a6e2a88077d9b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 066/100] fix: redistribute mass of a single month in
 grace_spatial_maps

---
 scripts/grace_spatial_maps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/grace_spatial_maps.py b/scripts/grace_spatial_maps.py
index 151c2c2..376edc5 100755
--- a/scripts/grace_spatial_maps.py
+++ b/scripts/grace_spatial_maps.py
@@ -380,6 +380,8 @@ def grace_spatial_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
                 attributes['lineage'].extend([f.name for f in Ylms.filename])
             # reduce to GRACE/GRACE-FO months and truncate to degree and order
             Ylms = Ylms.subset(GRACE_Ylms.month).truncate(lmax=LMAX,mmax=MMAX)
+            # verify dimensions (if a single month)
+            Ylms.expand_dims()
             # distribute removed Ylms uniformly over the ocean
             if REDISTRIBUTE_REMOVED:
                 # calculate ratio between total removed mass and
-- 
2.43.0


From f90a819f23afece5030cbc7e371de563216d0336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:14 +0000
Subject: [PATCH 067/100] fix: place cells of ascii grids relative to their
 extent

---
 gravity_toolkit/spatial.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 68e42e1..c7937cb 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -269,6 +269,11 @@ class spatial(object):
             self.lon = np.zeros((kwargs['nlon']))
         else:
             raise ValueError('Unknown dimensions for input ``spatial`` object')
+        # origin of the grid (global if not using an extent)
+        if (None not in kwargs['extent']):
+            lon0, lat0 = (kwargs['extent'][0], kwargs['extent'][3])
+        else:
+            lon0, lat0 = (0.0, 90.0)
         # get spatial dimensions
         nlat = len(self.lat)
         nlon = len(self.lon)
@@ -287,8 +292,8 @@ class spatial(object):
             d = {c:r.replace('D','E') for c,r in zip(columns,rx.findall(line))}
             # convert line coordinates to integers
             # (allowing for the precision of the coordinates)
-            ilon = np.int64(np.floor(np.float64(d['lon'])/dlon + 0.01))
-            ilat = np.int64(np.floor((90.0 - np.float64(d['lat']))/dlat + 0.01))
+            ilon = np.int64(np.floor((np.float64(d['lon']) - lon0)/dlon + 0.01))
+            ilat = np.int64(np.floor((lat0 - np.float64(d['lat']))/dlat + 0.01))
             self.data[ilat, ilon] = np.float64(d['data'])
             self.mask[ilat, ilon] = False
             self.lon[ilon] = np.float64(d['lon'])
@@ -1894,6 +1899,11 @@ class scaling_factors(spatial):
             self.lon = np.zeros((kwargs['nlon']))
         else:
             raise ValueError('Unknown dimensions for input ``spatial`` object')
+        # origin of the grid (global if not using an extent)
+        if (None not in kwargs['extent']):
+            lon0, lat0 = (kwargs['extent'][0], kwargs['extent'][3])
+        else:
+            lon0, lat0 = (0.0, 90.0)
         # get spatial dimensions
         nlat = len(self.lat)
         nlon = len(self.lon)
@@ -1914,8 +1924,8 @@ class scaling_factors(spatial):
             d = {c:r.replace('D','E') for c,r in zip(columns,rx.findall(line))}
             # convert line coordinates to integers
             # (allowing for the precision of the coordinates)
-            ilon = np.int64(np.floor(np.float64(d['lon'])/dlon + 0.01))
-            ilat = np.int64(np.floor((90.0 - np.float64(d['lat']))/dlat + 0.01))
+            ilon = np.int64(np.floor((np.float64(d['lon']) - lon0)/dlon + 0.01))
+            ilat = np.int64(np.floor((lat0 - np.float64(d['lat']))/dlat + 0.01))
             # get scaling factor, error and magnitude
             self.data[ilat,ilon] = np.float64(d['kfactor'])
             self.error[ilat,ilon] = np.float64(d['error'])
-- 
2.43.0


From 772503a59a4f5a80fc17e88b6a052033e853aa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:38 +0000
Subject: [PATCH 068/100] fix: redistribute mass of a single month in other
 programs

---
 scripts/calc_mascon.py        | 2 ++
 scripts/grace_raster_grids.py | 2 ++
 scripts/scale_grace_maps.py   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index 48f7dd7..99bcbc3 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -432,6 +432,8 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
                     format=removeform)
             # reduce to GRACE/GRACE-FO months and truncate to degree and order
             Ylms = Ylms.subset(GRACE_Ylms.month).truncate(lmax=LMAX,mmax=MMAX)
+            # verify dimensions (if a single month)
+            Ylms.expand_dims()
             # distribute removed Ylms uniformly over the ocean
             if REDISTRIBUTE_REMOVED:
                 # calculate ratio between total removed mass and
diff --git a/scripts/grace_raster_grids.py b/scripts/grace_raster_grids.py
index e243830..4fc743c 100644
--- a/scripts/grace_raster_grids.py
+++ b/scripts/grace_raster_grids.py
@@ -373,6 +373,8 @@ def grace_raster_grids(base_dir, PROC, DREL, DSET, LMAX, RAD,
                 attributes['ROOT']['lineage'].extend([f.name for f in Ylms.filename])
             # reduce to GRACE/GRACE-FO months and truncate to degree and order
             Ylms = Ylms.subset(GRACE_Ylms.month).truncate(lmax=LMAX,mmax=MMAX)
+            # verify dimensions (if a single month)
+            Ylms.expand_dims()
             # distribute removed Ylms uniformly over the ocean
             if REDISTRIBUTE_REMOVED:
                 # calculate ratio between total removed mass and
diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index 3f29117..a783cfb 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -383,6 +383,8 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
                     format=removeform)
             # reduce to GRACE/GRACE-FO months and truncate to degree and order
             Ylms = Ylms.subset(GRACE_Ylms.month).truncate(lmax=LMAX,mmax=MMAX)
+            # verify dimensions (if a single month)
+            Ylms.expand_dims()
             # distribute removed Ylms uniformly over the ocean
             if REDISTRIBUTE_REMOVED:
                 # calculate ratio between total removed mass and
-- 
2.43.0


From 624a544769c254604428c6dd716ffdc9d9ff465e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:13 +0000
Subject: [PATCH 069/100] fix: read ascii maps on the grid of regress and
 piecewise programs

---
 scripts/piecewise_grace_maps.py | 9 ++++++++-
 scripts/regress_grace_maps.py   | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/scripts/piecewise_grace_maps.py b/scripts/piecewise_grace_maps.py
index f936dc1..3070984 100755
--- a/scripts/piecewise_grace_maps.py
+++ b/scripts/piecewise_grace_maps.py
@@ -187,6 +187,12 @@ def piecewise_grace_maps(LMAX, RAD,
         lat = np.arange(maxlat-dlat/2.0, minlat-dlat/2.0, -dlat)
         nlon = len(lon)
         nlat = len(lat)
+    # extent of the input grids (not necessary for half-spaced global grids)
+    extent = [None]*4
+    if (INTERVAL == 1):
+        extent = [-180.0, 180.0, -90.0, 90.0]
+    elif (INTERVAL == 3):
+        extent = [lon.min(), lon.max(), lat.min(), lat.max()]
 
     # input data spatial object
     spatial_list = []
@@ -198,7 +204,8 @@ def piecewise_grace_maps(LMAX, RAD,
         # read GRACE/GRACE-FO spatial file
         if (DATAFORM == 'ascii'):
             dinput = gravtk.spatial().from_ascii(input_file,
-                spacing=[dlon,dlat], nlon=nlon, nlat=nlat)
+                spacing=[dlon,dlat], nlon=nlon, nlat=nlat,
+                extent=extent)
         elif (DATAFORM == 'netCDF4'):
             # netcdf (.nc)
             dinput = gravtk.spatial().from_netCDF4(input_file)
diff --git a/scripts/regress_grace_maps.py b/scripts/regress_grace_maps.py
index 62be313..1363a90 100755
--- a/scripts/regress_grace_maps.py
+++ b/scripts/regress_grace_maps.py
@@ -186,6 +186,12 @@ def regress_grace_maps(LMAX, RAD,
         lat = np.arange(maxlat-dlat/2.0, minlat-dlat/2.0, -dlat)
         nlon = len(lon)
         nlat = len(lat)
+    # extent of the input grids (not necessary for half-spaced global grids)
+    extent = [None]*4
+    if (INTERVAL == 1):
+        extent = [-180.0, 180.0, -90.0, 90.0]
+    elif (INTERVAL == 3):
+        extent = [lon.min(), lon.max(), lat.min(), lat.max()]
 
     # input data spatial object
     spatial_list = []
@@ -197,7 +203,8 @@ def regress_grace_maps(LMAX, RAD,
         # read GRACE/GRACE-FO spatial file
         if (DATAFORM == 'ascii'):
             dinput = gravtk.spatial().from_ascii(input_file,
-                spacing=[dlon,dlat], nlon=nlon, nlat=nlat)
+                spacing=[dlon,dlat], nlon=nlon, nlat=nlat,
+                extent=extent)
         elif (DATAFORM == 'netCDF4'):
             # netcdf (.nc)
             dinput = gravtk.spatial().from_netCDF4(input_file)
-- 
2.43.0


From 389bf56366c5ab04d29add4eb71d16279327a1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:23 +0000
Subject: [PATCH 070/100] fix: label tidal aliasing terms listed before
 seasonal terms

---
 scripts/piecewise_grace_maps.py | 3 +++
 scripts/regress_grace_maps.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/scripts/piecewise_grace_maps.py b/scripts/piecewise_grace_maps.py
index 3070984..53fc415 100755
--- a/scripts/piecewise_grace_maps.py
+++ b/scripts/piecewise_grace_maps.py
@@ -246,6 +246,9 @@ def piecewise_grace_maps(LMAX, RAD,
     tidal_aliasing['M2'] = 13.5
     tidal_aliasing['S2'] = 161.0
     tidal_aliasing['K2'] = 1362.7
+    # fits order seasonal components before tidal aliasing components
+    CYCLES = sorted(CYCLES, key=lambda c: any(np.isclose(c, period/365.25)
+        for period in tidal_aliasing.values()))
     # extra terms for tidal aliasing components or custom fits
     TERMS = []
     term_index = []
diff --git a/scripts/regress_grace_maps.py b/scripts/regress_grace_maps.py
index 1363a90..fa8f739 100755
--- a/scripts/regress_grace_maps.py
+++ b/scripts/regress_grace_maps.py
@@ -246,6 +246,9 @@ def regress_grace_maps(LMAX, RAD,
     tidal_aliasing['M2'] = 13.5
     tidal_aliasing['S2'] = 161.0
     tidal_aliasing['K2'] = 1362.7
+    # fits order seasonal components before tidal aliasing components
+    CYCLES = sorted(CYCLES, key=lambda c: any(np.isclose(c, period/365.25)
+        for period in tidal_aliasing.values()))
     # extra terms for tidal aliasing components or custom fits
     TERMS = []
     term_index = []
-- 
2.43.0


From 870a605dca5d8f95719f55dba55ac39949bad273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 071/100] fix: fit of mascon kernels as geoid coefficients

---
 scripts/calc_mascon.py             | 2 +-
 scripts/calc_sensitivity_kernel.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index 99bcbc3..dcab96b 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -657,7 +657,7 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
     elif (FIT_METHOD == 2):
         # Fitting Sensitivity Kernel as geoid coefficients
         for i in range(n_harm):
-            MA_lm[:,:] = M_lm[i,:]*wt_lm[i]
+            MA_lm[i,:] = M_lm[i,:]*wt_lm[i]
         fit_factor = wt_lm*np.ones((n_harm))
 
     # Fitting the sensitivity kernel from the input kernel
diff --git a/scripts/calc_sensitivity_kernel.py b/scripts/calc_sensitivity_kernel.py
index f3563e2..e49d5e9 100644
--- a/scripts/calc_sensitivity_kernel.py
+++ b/scripts/calc_sensitivity_kernel.py
@@ -337,7 +337,7 @@ def calc_sensitivity_kernel(LMAX, RAD,
     elif (FIT_METHOD == 2):
         # Fitting Sensitivity Kernel as geoid coefficients
         for i in range(n_harm):
-            MA_lm[:,:] = M_lm[i,:]*wt_lm[i]
+            MA_lm[i,:] = M_lm[i,:]*wt_lm[i]
         fit_factor = wt_lm*np.ones((n_harm))
         inv_fit_factor = np.ones((n_harm))
 
-- 
2.43.0


From 3e037b5d44cb2870f9cbcac56ca01b878e6f0e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:17 +0000
Subject: [PATCH 072/100] fix: reconstruct mascons with a single month

---
 scripts/mascon_reconstruct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/mascon_reconstruct.py b/scripts/mascon_reconstruct.py
index 78ab550..4a33d8f 100644
--- a/scripts/mascon_reconstruct.py
+++ b/scripts/mascon_reconstruct.py
@@ -243,7 +243,8 @@ def mascon_reconstruct(DSET, LMAX, RAD,
         args = (mascon_name,dset_str,gia_str.upper(),atm_str,ocean_str,
             LMAX,order_str,gw_str,ds_str)
         file_input = '{0}{1}{2}{3}{4}_L{5:d}{6}{7}{8}.txt'.format(*args)
-        mascon_data_input = np.loadtxt(OUTPUT_DIRECTORY.joinpath(file_input))
+        mascon_data_input = np.loadtxt(OUTPUT_DIRECTORY.joinpath(file_input),
+            ndmin=2)
 
         # convert mascon time-series from Gt to cmwe
         mascon_sigma = 1e15*mascon_data_input[:,2]/total_area
-- 
2.43.0


From 67dd89db99669a1189c57a8d8854fc626782a89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 073/100] fix: set the mask of the error map so it can be
 written as ascii

---
 scripts/grace_spatial_error.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/grace_spatial_error.py b/scripts/grace_spatial_error.py
index f20672b..efa0541 100755
--- a/scripts/grace_spatial_error.py
+++ b/scripts/grace_spatial_error.py
@@ -447,6 +447,7 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
 
     # Multiplying by c/s(phi#m) to get spatial maps (lon,lat)
     delta.data = np.sqrt(np.dot(ccos.T,d_cos) + np.dot(ssin.T,d_sin)).T
+    delta.mask = np.zeros_like(delta.data, dtype=bool)
 
     # output file format
     file_format = '{0}{1}_L{2:d}{3}{4}{5}_ERR_{6:03d}-{7:03d}.{8}'
-- 
2.43.0


From 038be0befdcb04afb8d2cca65017f1f1f310779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:30 +0000
Subject: [PATCH 074/100] fix: number of smoothed months when reading ascii
 files of harmonic errors

---
 scripts/grace_spatial_error.py | 20 ++++++++++++--------
 scripts/scale_grace_maps.py    | 18 +++++++++++-------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/scripts/grace_spatial_error.py b/scripts/grace_spatial_error.py
index efa0541..727214b 100755
--- a/scripts/grace_spatial_error.py
+++ b/scripts/grace_spatial_error.py
@@ -313,6 +313,13 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
         GRACE_Ylms.month[-1],suffix[DATAFORM])
     delta_format = '{0}_{1}_{2}_DELTA_CLM_L{3:d}{4}{5}{6}_{7:03d}-{8:03d}.{9}'
     DELTA_FILE = GRACE_Ylms.directory.joinpath(delta_format.format(*fargs))
+    # Smoothing Half-Width (CNES is a 10-day solution)
+    # 365/10/2 = 18.25 (next highest is 19)
+    # All other solutions are monthly solutions (HFWTH for annual = 6)
+    if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
+        HFWTH = 19
+    else:
+        HFWTH = 6
     # check full path of the GRACE directory for delta file
     # if file was previously calculated: will read file
     # else: will calculate the GRACE/GRACE-FO error
@@ -324,13 +331,6 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
         delta_Ylms = gravtk.harmonics(lmax=LMAX, mmax=MMAX)
         delta_Ylms.clm = np.zeros((LMAX+1, MMAX+1))
         delta_Ylms.slm = np.zeros((LMAX+1, MMAX+1))
-        # Smoothing Half-Width (CNES is a 10-day solution)
-        # 365/10/2 = 18.25 (next highest is 19)
-        # All other solutions are monthly solutions (HFWTH for annual = 6)
-        if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
-            HFWTH = 19
-        else:
-            HFWTH = 6
         # Equal to the noise of the smoothed time-series
         # for each spherical harmonic order
         for m in range(0,MMAX+1):# MMAX+1 to include MMAX
@@ -370,7 +370,11 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
         # truncate GRACE/GRACE-FO delta clm and slm to d/o LMAX/MMAX
         delta_Ylms = delta_Ylms.truncate(lmax=LMAX, mmax=MMAX)
         tsmth = np.squeeze(delta_Ylms.time)
-        nsmth = np.int64(delta_Ylms.month)
+        # number of smoothed points (months are not saved in ascii files)
+        if (DATAFORM == 'ascii'):
+            nsmth = len(GRACE_Ylms.time) - 2*HFWTH
+        else:
+            nsmth = np.int64(delta_Ylms.month)
 
     # Output spatial data object
     delta = gravtk.spatial()
diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index a783cfb..e517d78 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -412,6 +412,12 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
     delta_format = '{0}_{1}_{2}_DELTA_CLM_L{3:d}{4}{5}{6}_{7:03d}-{8:03d}.{9}'
     GRACE_Ylms.directory = pathlib.Path(Ylms['directory']).expanduser().absolute()
     DELTA_FILE = GRACE_Ylms.directory.joinpath(delta_format.format(*fargs))
+    # Smoothing Half-Width (CNES is a 10-day solution)
+    # All other solutions are monthly solutions (HFWTH for annual = 6)
+    if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
+        HFWTH = 19
+    else:
+        HFWTH = 6
     # check full path of the GRACE directory for delta file
     # if file was previously calculated: will read file
     # else: will calculate the GRACE/GRACE-FO error
@@ -423,12 +429,6 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
         delta_Ylms = gravtk.harmonics(lmax=LMAX, mmax=MMAX)
         delta_Ylms.clm = np.zeros((LMAX+1, MMAX+1))
         delta_Ylms.slm = np.zeros((LMAX+1, MMAX+1))
-        # Smoothing Half-Width (CNES is a 10-day solution)
-        # All other solutions are monthly solutions (HFWTH for annual = 6)
-        if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
-            HFWTH = 19
-        else:
-            HFWTH = 6
         # Equal to the noise of the smoothed time-series
         # for each spherical harmonic order
         for m in range(0,MMAX+1):# MMAX+1 to include MMAX
@@ -468,7 +468,11 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
         # truncate GRACE/GRACE-FO delta clm and slm to d/o LMAX/MMAX
         delta_Ylms = delta_Ylms.truncate(lmax=LMAX, mmax=MMAX)
         tsmth = np.squeeze(delta_Ylms.time)
-        nsmth = np.int64(delta_Ylms.month)
+        # number of smoothed points (months are not saved in ascii files)
+        if (DATAFORM == 'ascii'):
+            nsmth = len(GRACE_Ylms.time) - 2*HFWTH
+        else:
+            nsmth = np.int64(delta_Ylms.month)
 
     # Output spatial data object
     grid = gravtk.spatial()
-- 
2.43.0


From 6b3c092c89f5dec0b21d2aa168d9ca0c8ddaf510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:07 +0000
Subject: [PATCH 075/100] fix: directory of GRACE products when removing fields
 from scaled maps

---
 scripts/scale_grace_maps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index e517d78..2f11491 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -353,6 +353,8 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
     GIA_Ylms = GIA_Ylms_rate.drift(GRACE_Ylms.time, epoch=2003.3)
     GIA_Ylms.month[:] = np.copy(GRACE_Ylms.month)
 
+    # full path to directory for specific GRACE/GRACE-FO product
+    GRACE_Ylms.directory = pathlib.Path(Ylms['directory']).expanduser().absolute()
     # default file prefix
     if not FILE_PREFIX:
         fargs = (PROC,DREL,DSET,Ylms['title'],gia_str)
@@ -410,7 +412,6 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
     fargs = (PROC,DREL,DSET,LMAX,order_str,ds_str,atm_str,GRACE_Ylms.month[0],
         GRACE_Ylms.month[-1], suffix[DATAFORM])
     delta_format = '{0}_{1}_{2}_DELTA_CLM_L{3:d}{4}{5}{6}_{7:03d}-{8:03d}.{9}'
-    GRACE_Ylms.directory = pathlib.Path(Ylms['directory']).expanduser().absolute()
     DELTA_FILE = GRACE_Ylms.directory.joinpath(delta_format.format(*fargs))
     # Smoothing Half-Width (CNES is a 10-day solution)
     # All other solutions are monthly solutions (HFWTH for annual = 6)
-- 
2.43.0


From d66a691d440b326ddf6036e56aff6b85e4cc2434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:51 +0000
Subject: [PATCH 076/100] fix: grids shifted to start at their first longitude

---
 gravity_toolkit/tools.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 36c93f0..fc2ba22 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -1155,20 +1155,22 @@ def shift_grid(lon0, data, lon, CYCLIC=360.0):
     """
     start_idx = 0 if (np.fabs(lon[-1]-lon[0]-CYCLIC) > 1.e-4) else 1
     i0 = np.argmin(np.fabs(lon-lon0))
+    # number of columns east of the new base longitude
+    n0 = len(lon) - i0
     # shift longitudinal values
     if np.ma.isMA(lon):
         shift_lon = np.ma.zeros(lon.shape,lon.dtype)
     else:
         shift_lon = np.zeros(lon.shape,lon.dtype)
-    shift_lon[0:-i0] = lon[i0:] - CYCLIC
-    shift_lon[-i0:] = lon[start_idx:i0+start_idx]
+    shift_lon[:n0] = lon[i0:] - CYCLIC
+    shift_lon[n0:] = lon[start_idx:i0+start_idx]
     # shift data values
     if np.ma.isMA(data):
         shift_data = np.ma.zeros(data.shape,data.dtype)
     else:
         shift_data = np.zeros(data.shape,data.dtype)
-    shift_data[:,:-i0] = data[:,i0:]
-    shift_data[:,-i0:] = data[:,start_idx:i0+start_idx]
+    shift_data[:,:n0] = data[:,i0:]
+    shift_data[:,n0:] = data[:,start_idx:i0+start_idx]
     # return the shifted values
     return (shift_data, shift_lon)
 
-- 
2.43.0


From 0007f7883b335edee4ed6b282ca27ce95b1f97e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:04 +0000
Subject: [PATCH 077/100] fix: degree one from ocean models other than OMCT and
 MPIOM

---
 scripts/calc_degree_one.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index bf0f538..b7c0527 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -620,7 +620,7 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
         # removing the mean of the ecco spherical harmonic coefficients
         OBP_Ylms.mean(apply=True)
         # converting ecco degree 1 harmonics to coefficients of mass
-        OBP = gravtk.geocenter.from_harmonics(OBP_Ylms).scale(dfactor[1])
+        OBP = gravtk.geocenter().from_harmonics(OBP_Ylms).scale(dfactor[1])
 
     # Calculating cos/sin of phi arrays
     # output [m,phi]
-- 
2.43.0


From 5d730b7babae632657e6a9ae4652d189335ba79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:11 +0000
Subject: [PATCH 078/100] fix: dealiasing coefficients in the netCDF4 file of
 degree one

---
 scripts/calc_degree_one.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index b7c0527..ca71125 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -967,9 +967,8 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
     nc['AOD'] = {}
     g1 = fileID.createGroup('AOD')
     g1.description = f'Atmospheric and oceanic dealiasing'
-    gac = GAC.scale(1.0/dfactor[1])
-    for key in gac.fields:
-        var = gac.get(key)
+    for key in GAC.fields:
+        var = GAC.get(key)
         nc['AOD'][key] = g1.createVariable(key, var.dtype,
             ('time',), zlib=True)
         nc['AOD'][key][:] = var[:]
-- 
2.43.0


From eec8d7de59f59efe4183fd0555a98c087696ca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:21 +0000
Subject: [PATCH 079/100] fix: units of the drift and jumps restored to Monte
 Carlo degree one

---
 scripts/monte_carlo_degree_one.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index 7ecb2b6..7a4ad13 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -762,9 +762,9 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
                 DMAT, res, rnk, s = scipy.linalg.lstsq(IMAT, (CMAT-GMAT),
                     lapack_driver=SOLVER)
             # save geocenter for iteration and time t after restoring GIA+ATM
-            iteration.C10[t,n_iter] = DMAT[0]+gia.C10[t]+atm.C10[t]
-            iteration.C11[t,n_iter] = DMAT[1]+gia.C11[t]+atm.C11[t]
-            iteration.S11[t,n_iter] = DMAT[2]+gia.S11[t]+atm.S11[t]
+            iteration.C10[t,n_iter] = DMAT[0] + (gia.C10[t]+atm.C10[t])*dfactor[1]
+            iteration.C11[t,n_iter] = DMAT[1] + (gia.C11[t]+atm.C11[t])*dfactor[1]
+            iteration.S11[t,n_iter] = DMAT[2] + (gia.S11[t]+atm.S11[t])*dfactor[1]
         # remove mean of each solution for iteration
         iteration.C10[:,n_iter] -= iteration.C10[:,n_iter].mean()
         iteration.C11[:,n_iter] -= iteration.C11[:,n_iter].mean()
-- 
2.43.0


From e7d45e627601a12ddcf98e0587ed6a7784c24e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:15 +0000
Subject: [PATCH 080/100] fix: oblateness of every hour of release 6 dealiasing
 files

---
 scripts/aod1b_oblateness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/aod1b_oblateness.py b/scripts/aod1b_oblateness.py
index 047d2ca..edf71f8 100644
--- a/scripts/aod1b_oblateness.py
+++ b/scripts/aod1b_oblateness.py
@@ -229,7 +229,7 @@ def aod1b_oblateness(base_dir,
                 # close the input file for day
                 fid.close()
                 # write to file for each hour
-                for h in range(4):
+                for h in range(n_time):
                     print(fstr.format(YY,MM,DD,hours[h],C20[h]),file=f)
 
             # close the tar file
-- 
2.43.0


From 41404d55ad4f8951ba498bcbc150d72392e305ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:22 +0000
Subject: [PATCH 081/100] fix: dealiasing means of months crossing years

---
 scripts/dealiasing_monthly_mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/dealiasing_monthly_mean.py b/scripts/dealiasing_monthly_mean.py
index d597675..e0c4398 100755
--- a/scripts/dealiasing_monthly_mean.py
+++ b/scripts/dealiasing_monthly_mean.py
@@ -191,7 +191,7 @@ def dealiasing_monthly_mean(base_dir, PROC=None, DREL=None, DSET=None,
         # check if GRACE/GRACE-FO month crosses years
         if (start_yr[t] != end_yr[t]):
             # check if start_yr is a Leap Year or Standard Year
-            dpy = gravtk.time.calendar_days(start_yr[t]).sum()
+            dpy = int(gravtk.time.calendar_days(start_yr[t]).sum())
             # list of Julian Days to read from both start and end year
             julian_days_to_read = []
             # add days to read from start and end years
-- 
2.43.0


From 92180873b08f37544902192e696c020d51088c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:31 +0000
Subject: [PATCH 082/100] fix: dealiasing means of date files with a single
 month

---
 scripts/dealiasing_monthly_mean.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/dealiasing_monthly_mean.py b/scripts/dealiasing_monthly_mean.py
index e0c4398..a0639d2 100755
--- a/scripts/dealiasing_monthly_mean.py
+++ b/scripts/dealiasing_monthly_mean.py
@@ -171,7 +171,8 @@ def dealiasing_monthly_mean(base_dir, PROC=None, DREL=None, DSET=None,
     formats = ('f','i','i','i','i','i','i')
     dtype = np.dtype({'names':names, 'formats':formats})
     input_date_file = grace_dir.joinpath('GSM', grace_date_file)
-    date_input = np.loadtxt(input_date_file, skiprows=1, dtype=dtype)
+    date_input = np.loadtxt(input_date_file, skiprows=1, dtype=dtype,
+        ndmin=1)
     tdec = date_input['t']
     grace_month = date_input['mon']
     start_yr = date_input['styr']
-- 
2.43.0


From b9632aa9fd3d80198e74d99c8520be0b915e2b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:40 +0000
Subject: [PATCH 083/100] fix: precision of dates copied by dealiasing means

---
 scripts/dealiasing_monthly_mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/dealiasing_monthly_mean.py b/scripts/dealiasing_monthly_mean.py
index a0639d2..8a0f365 100755
--- a/scripts/dealiasing_monthly_mean.py
+++ b/scripts/dealiasing_monthly_mean.py
@@ -168,7 +168,7 @@ def dealiasing_monthly_mean(base_dir, PROC=None, DREL=None, DSET=None,
     grace_date_file = f'{PROC}_{DREL}_DATES.txt'
     # names and formats of GRACE/GRACE-FO date ascii file
     names = ('t','mon','styr','stday','endyr','endday','total')
-    formats = ('f','i','i','i','i','i','i')
+    formats = ('f8','i','i','i','i','i','i')
     dtype = np.dtype({'names':names, 'formats':formats})
     input_date_file = grace_dir.joinpath('GSM', grace_date_file)
     date_input = np.loadtxt(input_date_file, skiprows=1, dtype=dtype,
-- 
2.43.0


From 891043a9b50995d196d68d83b66a3ee39208cd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:16 +0000
Subject: [PATCH 084/100] fix: read_gfc_harmonics parses the names of Swarm
 dealiasing models

---
 gravity_toolkit/read_gfc_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_gfc_harmonics.py b/gravity_toolkit/read_gfc_harmonics.py
index d344488..17b08fb 100644
--- a/gravity_toolkit/read_gfc_harmonics.py
+++ b/gravity_toolkit/read_gfc_harmonics.py
@@ -178,7 +178,7 @@ def read_gfc_harmonics(input_file, TIDE=None, FLAG='gfc'):
     elif re.match(swarm_model, input_file.name):
         # compile numerical expression operator for parameters from files
         # Swarm: dealiasing products for Swarm data
-        rx = re.compile(swarm_data, re.VERBOSE | re.IGNORECASE)
+        rx = re.compile(swarm_model, re.VERBOSE | re.IGNORECASE)
         # extract parameters from input filename
         PROD,trunc,month,year,SFX = rx.findall(input_file.name).pop()
         # number of days in each month for the calendar year
-- 
2.43.0


From 742f9b00273163b35b8b15184d454c39a405f202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:23 +0000
Subject: [PATCH 085/100] fix: harmonics.from_gfc takes the month from the date
 of the model

---
 gravity_toolkit/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 4568f9b..2938608 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -527,7 +527,7 @@ class harmonics(object):
         if kwargs['date']:
             self.time = Ylms['time'].copy()
             # adjust months to fix special cases if necessary
-            self.month = adjust_months(Ylms['month'])
+            self.month = adjust_months(calendar_to_grace(self.time))
         # geophysical parameters of gravity model
         self.GM = np.float64(Ylms['earth_gravity_constant'])
         self.R = np.float64(Ylms['radius'])
-- 
2.43.0


From 57f139b8a58d0c391b8f5cde74b1b08bb8f5c9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:32 +0000
Subject: [PATCH 086/100] fix: harmonics.from_file reads spherical harmonic
 models and sets their maximum order

---
 gravity_toolkit/harmonics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 2938608..aa9eb6a 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -565,6 +565,8 @@ class harmonics(object):
         self.slm = Ylms['slm'].copy()
         self.time = Ylms['time'].copy()
         self.month = np.int64(calendar_to_grace(self.time))
+        self.lmax = np.int64(Ylms['l'][-1])
+        self.mmax = np.int64(Ylms['m'][-1])
         # copy header information for gravity model
         self.header = Ylms['header']
         # assign degree and order fields
@@ -721,7 +723,7 @@ class harmonics(object):
             return harmonics().from_gfc(filename, **kwargs)
         elif (format == 'SHM'):
             # spherical harmonic model
-            return harmonics().from_SHM(filename, self.lmax, **kwargs)
+            return harmonics(lmax=self.lmax).from_SHM(filename, **kwargs)
 
     def from_dict(self, d, **kwargs):
         """
-- 
2.43.0


From 000affad0ebe52b8f7da06b7878d48d26848d9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:39 +0000
Subject: [PATCH 087/100] fix: lomb_scargle converts temporal to angular
 frequencies

---
 gravity_toolkit/time_series/lomb_scargle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time_series/lomb_scargle.py b/gravity_toolkit/time_series/lomb_scargle.py
index f24c332..ba9fdb7 100755
--- a/gravity_toolkit/time_series/lomb_scargle.py
+++ b/gravity_toolkit/time_series/lomb_scargle.py
@@ -116,7 +116,7 @@ def lomb_scargle(t_in, d_in, **kwargs):
     if kwargs['OMEGA']:
         OMEGA = np.atleast_1d(kwargs['OMEGA'])
     elif kwargs['FREQUENCY']:
-        OMEGA = np.atleast_1d(kwargs['FREQUENCY'])/(2.0*np.pi)
+        OMEGA = (2.0*np.pi)*np.atleast_1d(kwargs['FREQUENCY'])
     elif kwargs['PERIOD']:
         OMEGA = (2.0*np.pi)/np.atleast_1d(kwargs['PERIOD'])
     else:
-- 
2.43.0


From 9826d81f44a5933468a38b35a5d9f1afd458fc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:48 +0000
Subject: [PATCH 088/100] fix: quick_mascon_regress labels terms in the order
 of the fit

---
 scripts/quick_mascon_regress.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/quick_mascon_regress.py b/scripts/quick_mascon_regress.py
index 2fcad34..92aaaf4 100755
--- a/scripts/quick_mascon_regress.py
+++ b/scripts/quick_mascon_regress.py
@@ -111,6 +111,9 @@ def run_regress(input_file,
     tidal_aliasing['M2'] = 13.5
     tidal_aliasing['S2'] = 161.0
     tidal_aliasing['K2'] = 1362.7
+    # fits order seasonal components before tidal aliasing components
+    cycles = sorted(cycles, key=lambda c: any(np.isclose(c, period/365.25)
+        for period in tidal_aliasing.values()))
     # extra terms for tidal aliasing components or custom fits
     terms = []
     term_index = []
-- 
2.43.0


From a70109794af4c2dde1222038847cb2a6451d7fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:51 +0000
Subject: [PATCH 089/100] fix: CNES sync program when not writing to a log file

---
 scripts/cnes_grace_sync.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/cnes_grace_sync.py b/scripts/cnes_grace_sync.py
index 00232e1..f0b2a92 100755
--- a/scripts/cnes_grace_sync.py
+++ b/scripts/cnes_grace_sync.py
@@ -179,6 +179,7 @@ def cnes_grace_sync(DIRECTORY, DREL=[], TIMEOUT=None, LOG=False,
         logging.info(f'CNES Sync Log ({today})')
     else:
         # standard output (terminal output)
+        fid1 = sys.stdout
         logging.basicConfig(level=logging.INFO)
 
     # DATA RELEASES (RL01, RL02, RL03, RL04)
-- 
2.43.0


From d5ba3f98fe3663b39737f12a5565338cefaafdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:01 +0000
Subject: [PATCH 090/100] fix: keep CMR granule names, urls and times aligned

---
 gravity_toolkit/utilities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 4c8c046..6d841ba 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -1713,18 +1713,18 @@ def cmr_filter_json(
     granule_mtimes = []
     # check that there are urls for request
     if ('feed' not in search_results) or ('entry' not in search_results['feed']):
-        return (granule_names,granule_urls)
+        return (granule_names,granule_urls,granule_mtimes)
     # descriptor links for each endpoint
     rel = {}
     rel['data'] = "http://esipfed.org/ns/fedsearch/1.1/data#"
     rel['s3'] = "http://esipfed.org/ns/fedsearch/1.1/s3#"
     # iterate over references and get cmr location
     for entry in search_results['feed']['entry']:
-        granule_names.append(entry['title'])
-        granule_mtimes.append(get_unix_time(entry['updated'],
-            format='%Y-%m-%dT%H:%M:%S.%f%z'))
         for link in entry['links']:
             if (link['rel'] == rel[endpoint]):
+                granule_names.append(entry['title'])
+                granule_mtimes.append(get_unix_time(entry['updated'],
+                    format='%Y-%m-%dT%H:%M:%S.%f%z'))
                 granule_urls.append(link['href'])
                 break
     # return the list of urls, granule ids and modified times
-- 
2.43.0


From f20f0a4493a8ac3a348f0b5430cdb12016f7c27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:11 +0000
Subject: [PATCH 091/100] fix: keep orders above the number of longitudes in
 harmonic_transform

---
 gravity_toolkit/harmonic_summation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonic_summation.py b/gravity_toolkit/harmonic_summation.py
index a9f969f..0889fba 100755
--- a/gravity_toolkit/harmonic_summation.py
+++ b/gravity_toolkit/harmonic_summation.py
@@ -184,10 +184,16 @@ def harmonic_transform(clm1, slm1, lon, lat,
         # summation over all spherical harmonic degrees
         delta_M[:,k] = np.sum(PLM[:,:MMAX+1,k]*Ylms[:,:],axis=0)/2.0
 
+    # wrap orders at or above the number of longitudes onto the orders with
+    # the same values at the grid nodes (else would be cropped in the fft)
+    delta_N = np.zeros((phimax-1,thmax),dtype=np.complex128)
+    for m in range(MMAX+1):
+        delta_N[m % (phimax-1),:] += delta_M[m,:]
+
     # output spatial field from FFT transformation
     s = np.zeros((phimax,thmax))
     # calculate fft for each theta band (over phis with axis=0)
-    s[:-1,:] = 2.0*(phimax-1)*np.fft.ifft(delta_M,n=phimax-1,axis=0).real
+    s[:-1,:] = 2.0*(phimax-1)*np.fft.ifft(delta_N,axis=0).real
     # complete sphere (values at 360 == values at 0)
     s[-1,:] = s[0,:]
 
-- 
2.43.0


From 68c707cd3bfdca75ff334bfede34daba2a647013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:50 +0000
Subject: [PATCH 092/100] fix: amplitudes and complex coefficients of harmonics
 that have since changed

---
 gravity_toolkit/harmonics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index aa9eb6a..e77f385 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -108,7 +108,7 @@ from gravity_toolkit.time import adjust_months,calendar_to_grace
 from gravity_toolkit.destripe_harmonics import destripe_harmonics
 from gravity_toolkit.read_gfc_harmonics import read_gfc_harmonics
 from gravity_toolkit.read_GRACE_harmonics import read_GRACE_harmonics
-from gravity_toolkit.utilities import import_dependency, reify
+from gravity_toolkit.utilities import import_dependency
 
 # attempt imports
 geoidtk = import_dependency('geoid_toolkit')
@@ -1829,7 +1829,7 @@ class harmonics(object):
         # return the destriped field
         return temp
 
-    @reify
+    @property
     def amplitude(self):
         """
         Degree amplitude of the spherical harmonics
@@ -1875,7 +1875,7 @@ class harmonics(object):
         """
         return np.ndim(self.clm)
 
-    @reify
+    @property
     def ilm(self):
         """
         Complex form of the spherical harmonics
-- 
2.43.0


From 4a8d9524e4b8a6d5abf7b7c4d9240a41d357a388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:30 +0000
Subject: [PATCH 093/100] fix: squeeze of harmonics with a single order

---
 gravity_toolkit/harmonics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index e77f385..6488ab9 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1411,7 +1411,10 @@ class harmonics(object):
             Update the degree and order dimensions
         """
         # squeeze singleton dimensions
+        # (a single order is not a singleton dimension)
         try:
+            if (self.ndim == 2) and not self.flattened:
+                raise ValueError('No time dimension to squeeze')
             self.clm = np.squeeze(self.clm, axis=-1)
             self.slm = np.squeeze(self.slm, axis=-1)
             self.time = np.squeeze(self.time)
-- 
2.43.0


From 1467363d4606a448b43bdeec0dd7ae84ed888dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:30 +0000
Subject: [PATCH 094/100] fix: degree and order of flattened harmonics when
 copied or squeezed

---
 gravity_toolkit/harmonics.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 6488ab9..e5630f1 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1200,6 +1200,9 @@ class harmonics(object):
         """
         Update the dimension variables of the ``harmonics`` object
         """
+        # flattened harmonics have a degree and order for each coefficient
+        if self.flattened:
+            return self
         # calculate spherical harmonic degree and order (0 is falsy)
         self.l=np.arange(self.lmax+1) if (self.lmax is not None) else None
         self.m=np.arange(self.mmax+1) if (self.mmax is not None) else None
@@ -1333,6 +1336,11 @@ class harmonics(object):
                 pass
         # assign degree and order fields
         temp.update_dimensions()
+        # keep the degree and order of each flattened coefficient
+        if self.flattened:
+            temp.flattened = True
+            temp.l = copy.copy(self.l)
+            temp.m = copy.copy(self.m)
         return temp
 
     def zeros(self, lmax=None, mmax=None, nt=None):
-- 
2.43.0


From 5f2a041b1fbbb4c3a907bad0c355491ced08b1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:12 +0000
Subject: [PATCH 095/100] fix: mask JPL mascons without grid cells in longitude

---
 gravity_toolkit/mascons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/mascons.py b/gravity_toolkit/mascons.py
index f6470ad..1c1ac6b 100644
--- a/gravity_toolkit/mascons.py
+++ b/gravity_toolkit/mascons.py
@@ -159,7 +159,7 @@ def to_jpl(gdata, lon, lat, lon_bound, lat_bound):
         # indices for grid points within the mascon
         I, = np.nonzero((lat >= lat_bound[k,1]) & (lat < lat_bound[k,0]))
         J, = np.nonzero((lon >= lon_bound[k,0]) & (lon < lon_bound[k,2]))
-        nlt = np.count_nonzero((lat >= lat_bound[k,1]) & (lat < lat_bound[k,0]))
+        nlt, nln = (len(I), len(J))
         I,J = (I[np.newaxis,:], J[:,np.newaxis])
         # calculate average data for mascon bin
         mascon_array['data'][k] = np.mean((np.cos(lat[I]*np.pi/180.0) /
@@ -167,7 +167,7 @@ def to_jpl(gdata, lon, lat, lon_bound, lat_bound):
         # calculate coordinates of mascon center
         mascon_array['lat'][k] = (lat_bound[k,1]+lat_bound[k,0])/2.0
         mascon_array['lon'][k] = (lon_bound[k,1]+lon_bound[k,2])/2.0
-        mascon_array['mask'][k] = bool(nlt == 0)
+        mascon_array['mask'][k] = bool((nlt == 0) | (nln == 0))
         # Do a check at the poles to make the lat/lon equal to +/-90/0
         if (np.abs(lat_bound[k,0]) == 90):
             mascon_array['lat'][k] = lat_bound[k,0]
-- 
2.43.0


From da5cce5e2ce37e2973d13cbc337e329629fcda8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:24 +0000
Subject: [PATCH 096/100] fix: case-insensitive file search matches complete
 file names

---
 gravity_toolkit/geocenter.py | 2 +-
 gravity_toolkit/harmonics.py | 2 +-
 gravity_toolkit/spatial.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index 56f2573..9daef3e 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -129,7 +129,7 @@ class geocenter(object):
             if not self.filename.exists():
                 # search for filename without case dependence
                 f = [f.name for f in self.filename.parent.iterdir() if
-                    re.match(self.filename.name, f.name, re.I)]
+                    re.fullmatch(re.escape(self.filename.name), f.name, re.I)]
                 if not f:
                     msg = f'{filename} not found in file system'
                     raise FileNotFoundError(msg)
diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index e5630f1..862a199 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -183,7 +183,7 @@ class harmonics(object):
             if not self.filename.exists():
                 # search for filename without case dependence
                 f = [f.name for f in self.filename.parent.iterdir() if
-                    re.match(self.filename.name, f.name, re.I)]
+                    re.fullmatch(re.escape(self.filename.name), f.name, re.I)]
                 if not f:
                     msg = f'{filename} not found in file system'
                     raise FileNotFoundError(msg)
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index c7937cb..3c3dbed 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -156,7 +156,7 @@ class spatial(object):
             if not self.filename.exists():
                 # search for filename without case dependence
                 f = [f.name for f in self.filename.parent.iterdir() if
-                    re.match(self.filename.name, f.name, re.I)]
+                    re.fullmatch(re.escape(self.filename.name), f.name, re.I)]
                 if not f:
                     msg = f'{filename} not found in file system'
                     raise FileNotFoundError(msg)
-- 
2.43.0


From 1f82f768242f75b3e3009bbf00a3c9da7e3600b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:36 +0000
Subject: [PATCH 097/100] fix: spatial offset and scale by series for fields
 with errors

---
 gravity_toolkit/spatial.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 3c3dbed..10134bb 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1422,6 +1422,9 @@ class spatial(object):
             n = len(var)
             temp.data = np.zeros((temp.shape[0],temp.shape[1],n))
             temp.mask = np.zeros((temp.shape[0],temp.shape[1],n),dtype=bool)
+            # repeat errors for each time
+            if getattr(self, 'error', None) is not None:
+                temp.error = np.repeat(self.error[:,:,None],n,axis=2)
             for i,v in enumerate(var):
                 temp.data[:,:,i] = self.data[:,:] + v
                 temp.mask[:,:,i] = np.copy(self.mask[:,:])
@@ -1457,6 +1460,9 @@ class spatial(object):
             n = len(var)
             temp.data = np.zeros((temp.shape[0],temp.shape[1],n))
             temp.mask = np.zeros((temp.shape[0],temp.shape[1],n),dtype=bool)
+            # repeat errors for each time
+            if getattr(self, 'error', None) is not None:
+                temp.error = np.repeat(self.error[:,:,None],n,axis=2)
             for i,v in enumerate(var):
                 temp.data[:,:,i] = v*self.data[:,:]
                 temp.mask[:,:,i] = np.copy(self.mask[:,:])
-- 
2.43.0


From 24b57659fe8a28b199d5cd151efd2c2d16ab7bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:46 +0000
Subject: [PATCH 098/100] fix: reverse spatial filenames and attributes when
 flipping time

---
 gravity_toolkit/spatial.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 10134bb..7be1db7 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1537,6 +1537,11 @@ class spatial(object):
         elif (axis == 2):
             temp.time = temp.time[::-1].copy()
             temp.month = temp.month[::-1].copy()
+            # reverse order of filenames and attributes if for each time
+            for key in ['filename','attributes']:
+                val = getattr(temp, key)
+                if isinstance(val, (list, tuple, np.ndarray)):
+                    setattr(temp, key, val[::-1])
         # attempt to reverse possible data variables
         for key in ['data','mask','error']:
             try:
-- 
2.43.0


From 9aacc14f13e3a083ea13f924fcc59b70c8c04e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:40 +0000
Subject: [PATCH 099/100] fix: Fourier analysis of grids with poles ordered
 from south to north

---
 gravity_toolkit/gen_harmonics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/gen_harmonics.py b/gravity_toolkit/gen_harmonics.py
index 013f54f..1ce52ce 100644
--- a/gravity_toolkit/gen_harmonics.py
+++ b/gravity_toolkit/gen_harmonics.py
@@ -289,7 +289,9 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
     n_even = np.arange(0,LMAX+1,2)
     n_odd = np.arange(1,LMAX+1,2)
 
-    if np.isclose([theta[0],theta[nlat-1]],[0.0,np.pi]).all():
+    # check if the grid includes the poles (from north or from south)
+    poles = np.isclose(np.sort(theta[[0,nlat-1]]),[0.0,np.pi])
+    if poles.all():
         # non-endpoints
         nt = np.dot(nn,theta[1:nlat-1][np.newaxis,:])
         theta_cc[m_even,:] = 2.0*np.dot(dcos[m_even,1:nlat-1],np.cos(nt).T)
@@ -307,7 +309,7 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
         theta_sc[m_odd,:] += np.dot(dsin[m_odd][:,[0,nlat-1]],
             np.sin(np.dot(nn,theta[[0,nlat-1]][np.newaxis,:])).T)
 
-    elif not np.isclose([theta[0],theta[nlat-1]],[0.0,np.pi]).any():
+    elif not poles.any():
         nt = np.dot(nn,theta[np.newaxis,:])
         theta_cc[m_even,:] = 2.0*np.dot(dcos[m_even,:],np.cos(nt).T)
         theta_sc[m_even,:] = 2.0*np.dot(dsin[m_even,:],np.cos(nt).T)
-- 
2.43.0


From 0af32eb9c3b9fcf967a00ba156416dfd01a1426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:06 +0000
Subject: [PATCH 100/100] fix: pass the spherical harmonic order to the
 atmospheric corrections in the degree one programs

---
 scripts/calc_degree_one.py        | 2 +-
 scripts/monte_carlo_degree_one.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index ca71125..24a7573 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -595,7 +595,7 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
     ATM_Ylms.month[:] = np.copy(GSM_Ylms.month)
     if ATM:
         atm_corr = gravtk.read_ecmwf_corrections(base_dir,
-            LMAX, ATM_Ylms.month)
+            LMAX, ATM_Ylms.month, MMAX=MMAX)
         ATM_Ylms.clm[:,:,:] = np.copy(atm_corr['clm'])
         ATM_Ylms.slm[:,:,:] = np.copy(atm_corr['slm'])
         # removing the mean of the atmospheric jump correction coefficients
diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index 7a4ad13..319dff7 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -495,7 +495,8 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
     ATM_Ylms.time[:] = np.copy(GSM_Ylms.time)
     ATM_Ylms.month[:] = np.copy(GSM_Ylms.month)
     if ATM:
-        atm_corr = gravtk.read_ecmwf_corrections(base_dir,LMAX,ATM_Ylms.month)
+        atm_corr = gravtk.read_ecmwf_corrections(base_dir,LMAX,
+            ATM_Ylms.month, MMAX=MMAX)
         ATM_Ylms.clm[:,:,:] = np.copy(atm_corr['clm'])
         ATM_Ylms.slm[:,:,:] = np.copy(atm_corr['slm'])
         # removing the mean of the atmospheric jump correction coefficients
-- 
2.43.0

