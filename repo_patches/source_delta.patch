From 2531e2d4276c393842a52c0b333598af57810166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 01/50] fix: evaluate the RM synthesis and RMSF transforms at
 the requested Faraday depths

The NUFFT was evaluated at the reversed Faraday depth array with the opposite
sign convention, which equals the intended transform only for arrays symmetric
about zero.
---
 RMutils/util_RM.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 265c36b..d5689c2 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -202,8 +202,9 @@ def do_rmsynth_planes(
         finufft.nufft1d3(
             x=a,
             c=np.ascontiguousarray(pCube.T),
-            s=(phiArr_radm2[::-1] * 2).astype(a.dtype),
+            s=(phiArr_radm2 * 2).astype(a.dtype),
             eps=eps,
+            isign=-1,
         )
         * KArr[..., None]
     ).T
@@ -403,8 +404,9 @@ def get_rmsf_planes(
             finufft.nufft1d3(
                 x=a,
                 c=np.ascontiguousarray(weightCube.T),
-                s=(phi2Arr[::-1] * 2).astype(a.dtype),
+                s=(phi2Arr * 2).astype(a.dtype),
                 eps=eps,
+                isign=-1,
             )
             * KArr[..., None]
         ).T
-- 
2.43.0


From 72101770694ae19df5421a2100fe08444fd90988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 02/50] fix: keep the RM-CLEAN window of components near the
 first Faraday depth channel

A negative slice start wrapped around to the end of the Faraday depth axis, so
the window of a component closer than half a beam to the first channel was
empty.
---
 RMutils/util_RM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index d5689c2..38172eb 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -734,7 +734,7 @@ class RMcleaner:
         dPhi = self.phiArr_radm2[1] - self.phiArr_radm2[0]
         fwhmRMSFArr_pix = fwhmRMSFArr / dPhi
         for i in np.where(mask)[0]:
-            start = int(i - fwhmRMSFArr_pix / 2)
+            start = max(0, int(i - fwhmRMSFArr_pix / 2))
             end = int(i + fwhmRMSFArr_pix / 2)
             mask[start:end] = True
         residFDF_mask = np.ma.array(residFDF, mask=~mask)
-- 
2.43.0


From 2839289f6a75a33b806e86b42f60309512d36c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 03/50] fix: report RM-CLEAN iteration counts when cleaning
 through a worker pool

The counts were written to an array owned by the worker process and never came
back, so the iteration map was all zeros for parallel runs.
---
 RMutils/util_RM.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 38172eb..7b230d8 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -626,6 +626,7 @@ def do_rmclean_hogbom(
         ccArr[:, yi, xi] = output[i][2]
         cleanFDF[:, yi, xi] = output[i][0]
         residFDF[:, yi, xi] = output[i][1]
+        iterCountArr[yi, xi] = output[i][3]
 
     # Restore the residual to the CLEANed FDF (moved outside of loop:
     # will now work for pixels/spectra without clean components)
@@ -650,6 +651,8 @@ class CleanLoopResults(NamedTuple):
     """The residual Faraday dispersion function cube"""
     ccArr: np.ndarray
     """The clean components cube"""
+    iterCount: int
+    """The number of iterations performed"""
 
 
 class RMcleaner:
@@ -777,7 +780,9 @@ class RMcleaner:
         residFDF = np.squeeze(residFDF)
         ccArr = np.squeeze(ccArr)
 
-        return CleanLoopResults(cleanFDF=cleanFDF, residFDF=residFDF, ccArr=ccArr)
+        return CleanLoopResults(
+            cleanFDF=cleanFDF, residFDF=residFDF, ccArr=ccArr, iterCount=iterCount
+        )
 
 
 # -----------------------------------------------------------------------------#
-- 
2.43.0


From 910acaed14fab739e7dda355389cfd11128c1a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 04/50] fix: error propagation when changing the reference
 frequency of log Stokes I models

---
 RMutils/util_misc.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index cb3c30c..7d53662 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -658,7 +658,7 @@ def renormalize_StokesI_model(
                 + 30 * lnx**6 * cov[0, 2]
                 + 20 * lnx**5 * cov[0, 3]
                 + 10 * lnx**4 * cov[0, 4]
-                + 16 * lnx**6 * cov[0, 5]
+                + 16 * lnx**6 * cov[1, 1]
                 + 24 * lnx**5 * cov[1, 2]
                 + 16 * lnx**4 * cov[1, 3]
                 + 8 * lnx**3 * cov[1, 4]
@@ -670,28 +670,29 @@ def renormalize_StokesI_model(
                 + cov[4, 4]
             ),
             np.abs(g2)
+            * np.log(10)
             * np.sqrt(
                 lnx**10 * cov[0, 0]
                 + 2 * lnx**9 * cov[0, 1]
                 + 2 * lnx**8 * cov[0, 2]
                 + 2 * lnx**7 * cov[0, 3]
                 + 2 * lnx**6 * cov[0, 4]
-                + 2 * lnx**5 / g * np.log(10) * cov[0, 5]
+                + 2 * lnx**5 / (g * np.log(10)) * cov[0, 5]
                 + lnx**8 * cov[1, 1]
                 + 2 * lnx**7 * cov[1, 2]
                 + 2 * lnx**6 * cov[1, 3]
                 + 2 * lnx**5 * cov[1, 4]
-                + 2 * lnx**4 / g * np.log(10) * cov[1, 5]
+                + 2 * lnx**4 / (g * np.log(10)) * cov[1, 5]
                 + lnx**6 * cov[2, 2]
                 + 2 * lnx**5 * cov[2, 3]
                 + 2 * lnx**4 * cov[2, 4]
-                + 2 * lnx**3 / g * np.log(10) * cov[2, 5]
+                + 2 * lnx**3 / (g * np.log(10)) * cov[2, 5]
                 + lnx**4 * cov[3, 3]
                 + 2 * lnx**3 * cov[3, 4]
-                + 2 * lnx**2 / g * np.log(10) * cov[3, 5]
+                + 2 * lnx**2 / (g * np.log(10)) * cov[3, 5]
                 + lnx**2 * cov[4, 4]
-                + 2 * lnx / g * np.log(10) * cov[4, 5]
-                + 1 / g**2 * cov[5, 5]
+                + 2 * lnx / (g * np.log(10)) * cov[4, 5]
+                + 1 / (g * np.log(10)) ** 2 * cov[5, 5]
             ),
         ]
 
-- 
2.43.0


From 8ff3559008250e5d80e2abb8164fe9ea798df785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:04 +0000
Subject: [PATCH 05/50] fix: count only unflagged channels in the degrees of
 freedom of Stokes I fits

---
 RMutils/util_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 7d53662..fee3959 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -516,7 +516,7 @@ def fit_StokesI_model(freqArr, IArr, dIArr, polyOrd, fit_function="log") -> FitR
         )
         aic = 2 * (polyOrd + 1) + mp.fnorm
 
-    dof = len(freqArr) - polyOrd - 1
+    dof = int(np.sum(goodchan)) - polyOrd - 1  # Flagged channels are not fitted.
     return FitResult(
         params=mp.params,
         fitStatus=int(np.abs(mp.status)),
-- 
2.43.0


From a45f51bf6d9ff4e0494f5953ff6a353d0a058b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 06/50] fix: chunking tools crash when the image fits in a
 single chunk

---
 RMtools_3D/assemble_chunks.py | 2 +-
 RMtools_3D/create_chunks.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index be2892b..c419f0b 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -137,7 +137,7 @@ def main():
         #       large.flush()
         chunk.close()
 
-    i += 1
+    i = num_chunks - 1
     file = chunkfiles[i]
     idx = base_idx_arr + i * Nperchunk
     idx = idx[idx < Npix_image]
diff --git a/RMtools_3D/create_chunks.py b/RMtools_3D/create_chunks.py
index 8afe8d8..2c3e16e 100644
--- a/RMtools_3D/create_chunks.py
+++ b/RMtools_3D/create_chunks.py
@@ -106,7 +106,7 @@ def main():
         filename = ("{}.C{" + prntcode + "}.fits").format(prefix, i)
         pf.writeto(filename, np.transpose(newdata), new_header, overwrite=True)
 
-    i += 1
+    i = num_chunks - 1
     idx = base_idx_arr + i * Nperchunk
     idx = idx[idx < Npix_image]
     xarr = idx // y_image
-- 
2.43.0


From 73377c049d0a85b1536901231f8c9be41eadfb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 07/50] fix: extract_region drops the last row and column of 2D
 images and refuses -1 limits

---
 RMtools_3D/extract_region.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index 2776a72..40762bc 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -98,10 +98,11 @@ def main():
             args.box[2] + args.box[3],
         ]
 
-    if box[0] > box[1]:
+    # A maximum of -1 selects everything up to the edge of the image.
+    if (box[0] > box[1]) and (box[1] != -1):
         raise Exception("Box dimensions incorrect! x_max < x_min!")
 
-    if box[2] > box[3]:
+    if (box[2] > box[3]) and (box[3] != -1):
         raise Exception("Box dimensions incorrect! y_max < y_min!")
 
     hdu = pf.open(args.infile, memmap=True)
@@ -150,6 +151,11 @@ def main():
         box[2] = 1
     if (box[3] == -1) or (box[3] > header["NAXIS2"]):
         box[3] = header["NAXIS2"]
+    if args.zlim != None:
+        if zlim[0] < 1:
+            zlim[0] = 1
+        if (zlim[1] == -1) or (zlim[1] > header["NAXIS" + str(cube_axis)]):
+            zlim[1] = header["NAXIS" + str(cube_axis)]
 
     # Extract sub-region:
     if header["NAXIS"] == 4:
@@ -166,7 +172,7 @@ def main():
             zlim[0] - 1 : zlim[1], box[2] - 1 : box[3], box[0] - 1 : box[1]
         ]
     elif header["NAXIS"] == 2:
-        data = hdu[0].data[box[2] - 1 : box[3] - 1, box[0] - 1 : box[1] - 1]
+        data = hdu[0].data[box[2] - 1 : box[3], box[0] - 1 : box[1]]
     else:
         raise Exception("Number of dimensions is some nonsupported value!")
 
-- 
2.43.0


From b450091437c8379edbee20ca14bf1624da5f23a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:56 +0000
Subject: [PATCH 08/50] fix: read FITS axes with the number of channels
 declared in the header

---
 RMutils/util_RM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 7b230d8..31c04a4 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -799,7 +799,7 @@ def fits_make_lin_axis(head, axis=0, dtype="f4"):
     stop = (
         head["CRVAL" + i] + (head["NAXIS" + i] - head["CRPIX" + i]) * head["CDELT" + i]
     )
-    nChan = int(abs(start - stop) / head["CDELT" + i] + 1)
+    nChan = int(head["NAXIS" + i])
 
     return np.linspace(start, stop, nChan).astype(dtype)
 
-- 
2.43.0


From 7e6e18f1c866d8d1eae8a0e4718c984e3f03f9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:04 +0000
Subject: [PATCH 09/50] fix: restore RM-CLEAN cubes to the axis order of the
 input file

---
 RMtools_3D/do_RMclean_3D.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index 8e7a9a8..e21f1e3 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -146,21 +146,16 @@ def run_rmclean(
         log("Saving the clean FDF and ancillary FITS files")
 
     # Move FD axis back to original position, and restore dimensionality:
-    old_Ndim, FD_axis = find_axes(head)
-    new_Ndim = cleanFDF.ndim
-    # The difference is the number of dimensions that need to be added:
-    if old_Ndim - new_Ndim != 0:  # add missing (degenerate) dimensions back in
-        cleanFDF = np.expand_dims(cleanFDF, axis=tuple(range(old_Ndim - new_Ndim)))
-        ccArr = np.expand_dims(ccArr, axis=tuple(range(old_Ndim - new_Ndim)))
-        residFDF = np.expand_dims(residFDF, axis=tuple(range(old_Ndim - new_Ndim)))
-    # New dimensions are added to the beginning of the axis ordering
-    # (revserse of FITS ordering)
-
-    # Move the FDF axis to it's original spot. Hopefully this means that all
-    # axes are in their original place after all of that.
-    cleanFDF = np.moveaxis(cleanFDF, old_Ndim - new_Ndim, old_Ndim - FD_axis)
-    ccArr = np.moveaxis(ccArr, old_Ndim - new_Ndim, old_Ndim - FD_axis)
-    residFDF = np.moveaxis(residFDF, old_Ndim - new_Ndim, old_Ndim - FD_axis)
+    # restore the (possibly degenerate) axes in the order of the input file
+    # (reverse of FITS ordering), then move the FD axis back from first place.
+    Ndim, FD_axis = find_axes(head)
+    sky_shape = [
+        head["NAXIS" + str(i)] for i in range(Ndim, 0, -1) if i != FD_axis
+    ]
+    cube_shape = [phiArr_radm2.size] + sky_shape
+    cleanFDF = np.moveaxis(cleanFDF.reshape(cube_shape), 0, Ndim - FD_axis)
+    ccArr = np.moveaxis(ccArr.reshape(cube_shape), 0, Ndim - FD_axis)
+    residFDF = np.moveaxis(residFDF.reshape(cube_shape), 0, Ndim - FD_axis)
 
     return cleanFDF, ccArr, iterCountArr, residFDF, head
 
-- 
2.43.0


From ed7bac8aa325a7635f1ea9300f3753dc5ba02b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:01 +0000
Subject: [PATCH 10/50] fix: fit Stokes I cubes whose image is one pixel wide
 or high

---
 RMtools_3D/do_fitIcube.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 1a0e951..8ae1196 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -515,10 +515,9 @@ def make_model_I(
 
     coeffs = np.array([mskArr] * 6, dtype=dtFloat)
     coeffs_error = np.array([mskArr] * 6, dtype=dtFloat)
-    reffreq = np.squeeze(np.array([mskArr], dtype=dtFloat))
+    reffreq = np.array(mskArr, dtype=dtFloat)
 
     covars = np.array([[mskArr] * 6] * 6, dtype=dtFloat)
-    datacube = np.squeeze(datacube)
 
     # Select only the spectra with emission
     srcData = np.rot90(datacube[:, mskSrc > 0])
-- 
2.43.0


From 2f9bbf0b312e62400384537e06dfdc513a41015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:01 +0000
Subject: [PATCH 11/50] fix: do_fitIcube crashes on cubes without a BUNIT
 keyword

---
 RMtools_3D/do_fitIcube.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 8ae1196..7e5ed08 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -562,7 +562,8 @@ def make_model_I(
             results = pool.map(func, args_list)
 
     headcoeff = remove_header_third_fourth_axis(header=header.copy())
-    del headcoeff["BUNIT"]
+    if "BUNIT" in headcoeff:
+        del headcoeff["BUNIT"]
 
     endTime = time.time()
     cputime = endTime - startTime
-- 
2.43.0


From 95000f61baabf3c69f1db1d84307bd241c255191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:05 +0000
Subject: [PATCH 12/50] fix: label the frequency axis of the do_fitIcube model
 cube for XYSF input

---
 RMtools_3D/do_fitIcube.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 7e5ed08..54b8eb2 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -45,7 +45,7 @@ import astropy.io.fits as pf
 import numpy as np
 from tqdm.contrib.concurrent import process_map
 
-from RMtools_3D.do_RMsynth_3D import readFitsCube
+from RMtools_3D.do_RMsynth_3D import find_freq_axis, readFitsCube
 from RMtools_3D.make_freq_file import get_freq_array
 from RMutils.util_FITS import strip_fits_dims
 from RMutils.util_misc import (
@@ -394,6 +394,15 @@ def savefits_model_I(data, header, outDir, prefixOut):
     if nDim == 4:
         headModelCube["NAXIS4"] = header["NAXIS4"]
         nVoxels *= header["NAXIS4"]
+    # The model cube has frequency as its third axis, whatever the input layout.
+    freq_axis = find_freq_axis(header)
+    if nDim == 3 and freq_axis > 3:
+        for key in ["NAXIS", "CTYPE", "CRVAL", "CRPIX", "CDELT", "CUNIT"]:
+            if f"{key}{freq_axis}" in header:
+                headModelCube[f"{key}3"] = header[f"{key}{freq_axis}"]
+            elif f"{key}3" in headModelCube:
+                del headModelCube[f"{key}3"]
+        nVoxels = header["NAXIS1"] * header["NAXIS2"] * headModelCube["NAXIS3"]
     while len(headModelCube) < (36 * 4 - 1):
         headModelCube.append()
 
-- 
2.43.0


From 60e0d6f60f21a383d9a90748eac0a43243275676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:05 +0000
Subject: [PATCH 13/50] fix: speed of light used for the reference frequency
 from LAMSQ0

---
 RMtools_3D/rescale_I_model_3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/rescale_I_model_3D.py b/RMtools_3D/rescale_I_model_3D.py
index a2eb9a7..f0324f1 100644
--- a/RMtools_3D/rescale_I_model_3D.py
+++ b/RMtools_3D/rescale_I_model_3D.py
@@ -154,7 +154,7 @@ def command_line():
     if args.lambda2_0 is not None:
         FDF_header = pf.getheader(args.lambda2_0)
         lam0Sq_m2 = FDF_header["LAMSQ0"]
-        freq0 = 2.997924538e8 / np.sqrt(lam0Sq_m2)
+        freq0 = 2.99792458e8 / np.sqrt(lam0Sq_m2)
         new_freq_map = np.ones_like(old_reffreq_map) * freq0
     elif args.new_reffreq is not None:
         new_freq_map = np.ones_like(old_reffreq_map) * args.new_reffreq
-- 
2.43.0


From 13cfd012c37461162e3bf5d921d7ab6af9feafa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:05 +0000
Subject: [PATCH 14/50] fix: write every coefficient map up to the highest
 order used when rescaling Stokes I models

---
 RMtools_3D/rescale_I_model_3D.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/RMtools_3D/rescale_I_model_3D.py b/RMtools_3D/rescale_I_model_3D.py
index f0324f1..544d12b 100644
--- a/RMtools_3D/rescale_I_model_3D.py
+++ b/RMtools_3D/rescale_I_model_3D.py
@@ -322,9 +322,10 @@ def write_new_parameters(
 
     # Work out highest order of polynomial:
     # if any of the 6 possible coeff planes contain non-zero and non-nan values, it's a 'good' plane.
-    max_order = (
-        np.sum(np.any((new_coeffs != 0.0) & (~np.isnan(new_coeffs)), axis=(1, 2))) - 1
-    )
+    # (Planes are ordered from the highest order to the lowest; planes below the
+    # highest order may be entirely zero.)
+    good = np.any((new_coeffs != 0.0) & (~np.isnan(new_coeffs)), axis=(1, 2))
+    max_order = 5 - np.argmax(good) if np.any(good) else -1
 
     for i in range(max_order + 1):
         pf.writeto(
-- 
2.43.0


From 33ee1505f5aafec27715ecbc9dc33ce78e2f181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:05 +0000
Subject: [PATCH 15/50] fix: Burn depolarisation depends on the square of
 sigma_RM

---
 RMutils/util_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index fee3959..a35b026 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -1200,7 +1200,7 @@ def create_pqu_spectra_burn(
     pArr = fracPolArr * np.ones((nComps, nChans), dtype="f8")
     quArr = pArr * (
         np.exp(2j * (np.radians(psi0Arr_deg) + RMArr_radm2 * lamSqArr_m2))
-        * np.exp(-2.0 * sigmaRMArr_radm2 * np.power(lamArr_m, 4.0))
+        * np.exp(-2.0 * sigmaRMArr_radm2**2.0 * np.power(lamArr_m, 4.0))
     )
 
     # Sum along the component axis to create the final spectra
-- 
2.43.0


From 0f4e5f6e6416c6379681745d9e06020053a512df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:05 +0000
Subject: [PATCH 16/50] fix: differential Faraday rotation spectra with angles
 given as a list

---
 RMutils/util_misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index a35b026..6db5852 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -1253,7 +1253,8 @@ def create_pqu_spectra_diff(freqArr_Hz, fracPolArr, psi0Arr_deg, RMArr_radm2):
     # Convert lists to arrays
     freqArr_Hz = np.array(freqArr_Hz, dtype="f8")
     fracPolArr = np.array(fracPolArr, dtype="f8")
-    psi0Arr_rad = np.radians(psi0Arr_deg, dtype="f8")
+    psi0Arr_deg = np.array(psi0Arr_deg, dtype="f8")
+    psi0Arr_rad = np.radians(psi0Arr_deg)
     RMArr_radm2 = np.array(RMArr_radm2, dtype="f8")
 
     # Calculate some prerequsites
-- 
2.43.0


From 3373cdc8eef67d30985b665a49a8e10779408a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:31 +0000
Subject: [PATCH 17/50] fix: QU-fitting chi-squared keeps the good one of q and
 u when the other is flagged

---
 RMtools_1D/do_QUfit_1D_mnest.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index ea39a21..b988b04 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -640,9 +640,8 @@ def chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model):
     # Evaluate the model and calculate chisq
     pDict = {k: v for k, v in zip(parNames, p)}
     quMod = model(pDict, lamSqArr_m2)
-    chisq = np.nansum(
-        np.power((qArr - quMod.real) / dqArr, 2)
-        + np.power((uArr - quMod.imag) / duArr, 2)
+    chisq = np.nansum(np.power((qArr - quMod.real) / dqArr, 2)) + np.nansum(
+        np.power((uArr - quMod.imag) / duArr, 2)
     )
 
     return chisq
-- 
2.43.0


From cde571514c668c1c1a7ec119bbec596d3bdc43a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:31 +0000
Subject: [PATCH 18/50] fix: QU-fitting statistics count the data used, not
 flagged channels

---
 RMtools_1D/do_QUfit_1D_mnest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index b988b04..109072e 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -451,7 +451,7 @@ def run_qufit(
         )
 
     # Calculate goodness-of-fit parameters
-    nData = 2.0 * len(lamSqArr_m2)
+    nData = np.sum(np.isfinite(qArr / dqArr)) + np.sum(np.isfinite(uArr / duArr))
     dof = nData - nFree - 1
     chiSq = chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model)
     chiSqRed = chiSq / dof
-- 
2.43.0


From 037c9a5789e2a3efca9de34f73e8266c524d9991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:31 +0000
Subject: [PATCH 19/50] fix: corrected Akaike criterion includes the 2k term

---
 RMtools_1D/do_QUfit_1D_mnest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index 109072e..893f5bd 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -456,7 +456,7 @@ def run_qufit(
     chiSq = chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model)
     chiSqRed = chiSq / dof
     AIC = 2.0 * nFree - 2.0 * lnLike
-    AICc = 2.0 * nFree * (nFree + 1) / (nData - nFree - 1) - 2.0 * lnLike
+    AICc = AIC + 2.0 * nFree * (nFree + 1) / (nData - nFree - 1)
     BIC = nFree * np.log(nData) - 2.0 * lnLike
 
     # Summary of run
-- 
2.43.0


From c3bce6f29f3884d43eac0ed9d9c810a5a53161e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:58 +0000
Subject: [PATCH 20/50] fix: blank Stokes I pixels do not spread to their
 neighbours on interpolation

---
 RMutils/util_misc.py | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 6db5852..19b11b4 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -876,21 +876,8 @@ def create_frac_spectra(
 def interp_images(arr1, arr2, f=0.5):
     """Create an interpolated image between two other images."""
 
-    nY, nX = arr1.shape
-
-    # Concatenate arrays into a single array of shape (2, nY, nX)
-    arr = np.r_["0,3", arr1, arr2]
-
-    # Define the grid coordinates where you want to interpolate
-    X, Y = np.meshgrid(np.arange(nX), np.arange(nY))
-
-    # Create coordinates for interpolated frame
-    coords = np.ones(arr1.shape) * f, Y, X
-
-    # Interpolate using the map_coordinates function
-    interpArr = ndi.map_coordinates(arr, coords, order=1)
-
-    return interpArr
+    # Pixel by pixel, so that blank pixels do not spread to their neighbours.
+    return arr1 * (1.0 - f) + arr2 * f
 
 
 # -----------------------------------------------------------------------------#
-- 
2.43.0


From aa3f22f745ede68b9b25b3aa3aed610cca64e0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:58 +0000
Subject: [PATCH 21/50] fix: 3D synthesis takes Stokes I at the reference
 frequency, not midway between planes

---
 RMtools_3D/do_RMsynth_3D.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index fab7abc..00c7f2f 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -239,13 +239,17 @@ def run_rmsynth(
         )
 
     if dataI is not None and not not_rmsynth:  # if we created an FDF cube
-        idx = np.abs(freqArr_Hz - freq0_Hz).argmin()
-        if freqArr_Hz[idx] < freq0_Hz:
-            Ifreq0Arr = interp_images(dataI[idx, :, :], dataI[idx + 1, :, :], f=0.5)
-        elif freqArr_Hz[idx] > freq0_Hz:
-            Ifreq0Arr = interp_images(dataI[idx - 1, :, :], dataI[idx, :, :], f=0.5)
-        else:
-            Ifreq0Arr = dataI[idx, :, :]
+        # Planes on either side of the reference frequency (in either order)
+        order = np.argsort(freqArr_Hz)
+        idx = np.clip(
+            np.searchsorted(freqArr_Hz[order], freq0_Hz), 1, freqArr_Hz.size - 1
+        )
+        lo, hi = order[idx - 1], order[idx]
+        Ifreq0Arr = interp_images(
+            dataI[lo, :, :],
+            dataI[hi, :, :],
+            f=(freq0_Hz - freqArr_Hz[lo]) / (freqArr_Hz[hi] - freqArr_Hz[lo]),
+        )
 
         # Multiply the dirty FDF by Ifreq0 to recover the PI
         FDFcube *= Ifreq0Arr
-- 
2.43.0


From 03528d4ea57bb4da59a55c4cd5bbb780b78d29aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:58 +0000
Subject: [PATCH 22/50] fix: 3D RMSF leaves out voxels flagged in Stokes U or I
 as synthesis does

---
 RMtools_3D/do_RMsynth_3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 00c7f2f..5057c0f 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -213,7 +213,7 @@ def run_rmsynth(
             lambdaSqArr_m2=lambdaSqArr_m2,
             phiArr_radm2=phiArr_radm2,
             weightArr=weightArr,
-            mskArr=~np.isfinite(dataQ),
+            mskArr=~(np.isfinite(qArr) & np.isfinite(uArr)),
             lam0Sq_m2=lam0Sq_m2,
             double=True,
             fitRMSF=fitRMSF or super_resolution,
-- 
2.43.0


From f3415a921c64d773dccb33f4d9a1db0e815d17af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:58 +0000
Subject: [PATCH 23/50] fix: peak-fitting reference frequency of
 super-resolution cubes

---
 RMtools_3D/RMpeakfit_3D.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index d218f06..db6cf10 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -72,7 +72,12 @@ def pixelwise_peak_fitting(
         map_dict[parameter] = np.zeros(map_size)
 
     freqArr_Hz = speed_of_light.value / np.sqrt(lamSqArr_m2)
-    freq0_Hz = speed_of_light.value / np.sqrt(lam0Sq)
+    # As in the 3D synthesis (super-resolution synthesis has lambda^2_0 = 0)
+    freq0_Hz = (
+        speed_of_light.value / np.sqrt(lam0Sq)
+        if lam0Sq > 0
+        else np.nanmean(freqArr_Hz)
+    )
     if stokesIcube is not None:
         idx = np.abs(freqArr_Hz - freq0_Hz).argmin()
         if freqArr_Hz[idx] < freq0_Hz:
-- 
2.43.0


From bc199e76b8adaa0eb86c285c63d41d99540d4a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:58 +0000
Subject: [PATCH 24/50] fix: peak fitting takes Stokes I at the reference
 frequency, as 3D synthesis does

---
 RMtools_3D/RMpeakfit_3D.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index db6cf10..a45efe3 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -79,17 +79,17 @@ def pixelwise_peak_fitting(
         else np.nanmean(freqArr_Hz)
     )
     if stokesIcube is not None:
-        idx = np.abs(freqArr_Hz - freq0_Hz).argmin()
-        if freqArr_Hz[idx] < freq0_Hz:
-            Ifreq0Arr = interp_images(
-                stokesIcube[idx, :, :], stokesIcube[idx + 1, :, :], f=0.5
-            )
-        elif freqArr_Hz[idx] > freq0_Hz:
-            Ifreq0Arr = interp_images(
-                stokesIcube[idx - 1, :, :], stokesIcube[idx, :, :], f=0.5
-            )
-        else:
-            Ifreq0Arr = stokesIcube[idx, :, :]
+        # Planes on either side of the reference frequency (in either order)
+        order = np.argsort(freqArr_Hz)
+        idx = np.clip(
+            np.searchsorted(freqArr_Hz[order], freq0_Hz), 1, freqArr_Hz.size - 1
+        )
+        lo, hi = order[idx - 1], order[idx]
+        Ifreq0Arr = interp_images(
+            stokesIcube[lo, :, :],
+            stokesIcube[hi, :, :],
+            f=(freq0_Hz - freqArr_Hz[lo]) / (freqArr_Hz[hi] - freqArr_Hz[lo]),
+        )
     else:
         Ifreq0Arr = np.ones(map_size)
         stokesIcube = np.ones((freqArr_Hz.size, map_size[0], map_size[1]))
-- 
2.43.0


From b6f8672c3e6af69277c3ef7591a498d9134e2afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:58 +0000
Subject: [PATCH 25/50] fix: 3D fractional polarisation uses the bias-corrected
 intensity, as in 1D

---
 RMtools_3D/RMpeakfit_3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index a45efe3..9faadd9 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -137,7 +137,7 @@ def pixelwise_peak_fitting(
             mDict["freq0_Hz"] = freq0_Hz
             mDict["fwhmRMSF"] = fwhmRMSF_pix
             mDict["Ifreq0"] = Ifreq0Arr[xarr[i], yarr[i]]
-            mDict["fracPol"] = mDict["ampPeakPIfit"] / mDict["Ifreq0"]
+            mDict["fracPol"] = mDict["ampPeakPIfitEff"] / mDict["Ifreq0"]
             mDict["min_freq"] = float(np.min(freqArr_Hz))
             mDict["max_freq"] = float(np.max(freqArr_Hz))
             mDict["N_channels"] = lamSqArr_m2.size
-- 
2.43.0


From 71fc0cdca4038c3505d5a0c2263a67e867b9cbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:58 +0000
Subject: [PATCH 26/50] fix: 1D RMSF leaves out channels flagged in Stokes U
 only, as synthesis does

---
 RMtools_1D/do_RMsynth_1D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index d4cd489..cd71466 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -317,7 +317,7 @@ def run_rmsynth(
         lambdaSqArr_m2=lambdaSqArr_m2,
         phiArr_radm2=phiArr_radm2,
         weightArr=weightArr,
-        mskArr=~np.isfinite(qArr),
+        mskArr=~(np.isfinite(qArr) & np.isfinite(uArr)),
         lam0Sq_m2=lam0Sq_m2,
         double=True,
         fitRMSF=fitRMSF or super_resolution,
-- 
2.43.0


From 0c002ec06342d3fc716b4ab57d13c8177bbe91e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:58 +0000
Subject: [PATCH 27/50] fix: 1D theoretical noise, weights and channel counts
 leave out flagged channels

---
 RMtools_1D/do_RMsynth_1D.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index cd71466..6a10052 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -365,7 +365,9 @@ def run_rmsynth(
     dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
 
     # Calculate the theoretical noise in the FDF !!Old formula only works for wariance weights!
-    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+    # (flagged channels have no weight)
+    goodChans = np.isfinite(weightArr) & np.isfinite(qArr) & np.isfinite(uArr)
+    weightArr = np.where(goodChans, weightArr, 0.0)
     dFDFth = np.abs(Ifreq0) * np.sqrt(
         np.nansum(weightArr**2 * np.nan_to_num(dquArr) ** 2) / (np.sum(weightArr)) ** 2
     )
-- 
2.43.0


From 66be098834849c81d55fe35c02195c7f7bb67434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:24 +0000
Subject: [PATCH 28/50] fix: super-resolution 1D synthesis with a supplied
 Stokes I model

---
 RMtools_1D/do_RMsynth_1D.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index 6a10052..80d6886 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -346,6 +346,10 @@ def run_rmsynth(
     # Stokes I reference frequency.
 
     if lam0Sq_m2 == 0:  # Rudnick-Cotton adapatation
+        if modStokesI is not None:  # a supplied model has no reference frequency
+            fit_result = fit_result.with_options(
+                reference_frequency_Hz=float(np.nanmean(freqArr_Hz))
+            )
         freq0_Hz = fit_result.reference_frequency_Hz
     else:  # standard RM-synthesis
         freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
-- 
2.43.0


From 521337c4a6cb6c34c332dc18daef4c84e72111e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:06 +0000
Subject: [PATCH 29/50] fix: 1D synthesis with a supplied Stokes I model and
 one usable channel

---
 RMtools_1D/do_RMsynth_1D.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index 80d6886..6353d20 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -364,7 +364,9 @@ def run_rmsynth(
     if modStokesI is None:
         Ifreq0 = calculate_StokesI_model(fit_result, freq0_Hz)
     elif modStokesI is not None:
-        modStokesI_interp = interp1d(freqArr_Hz, modStokesI)
+        # The reference frequency can exceed the band edge by rounding
+        # (e.g. when a single channel has all of the weight)
+        modStokesI_interp = interp1d(freqArr_Hz, modStokesI, fill_value="extrapolate")
         Ifreq0 = modStokesI_interp(freq0_Hz)
     dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
 
-- 
2.43.0


From 65392bff188db8f71f4c255e8e6bce9aef1c1c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:58 +0000
Subject: [PATCH 30/50] fix: synthesis keeps the image axes of images one pixel
 wide

---
 RMutils/util_RM.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 31c04a4..ce38b45 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -214,14 +214,14 @@ def do_rmsynth_planes(
     zeromap = np.all(FDFcube == 0.0, axis=0)
     FDFcube[..., zeromap] = np.nan + 1.0j * np.nan
 
-    # Restore if 3D shape
+    # Remove redundant dimensions in the FDF array
+    # Restore if 3D shape (also if the image is one pixel wide)
     if nDims == 3:
         FDFcube = np.reshape(
             FDFcube, (FDFcube.shape[0], old_data_shape[1], old_data_shape[2])
         )
-
-    # Remove redundant dimensions in the FDF array
-    FDFcube = np.squeeze(FDFcube)
+    else:
+        FDFcube = np.squeeze(FDFcube)
 
     return RMsynthResults(FDFcube=FDFcube, lam0Sq_m2=lam0Sq_m2)
 
-- 
2.43.0


From 499e1b33a4590e75a5afd315199342b1f09c81b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:11 +0000
Subject: [PATCH 31/50] fix: peak fitting of images one pixel wide keeps their
 orientation

---
 RMtools_3D/RMpeakfit_3D.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index 9faadd9..835a719 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -478,10 +478,12 @@ def main():
         rmsArr = None
 
     if (
-        FDF.ndim == 2
+        FDF.ndim < 3
     ):  # When inputting chunks made from createchunks, it drops an axis and breaks things. Re-add to fix things.
-        FDF = np.expand_dims(FDF, axis=1)
-        fwhmRMSF = np.expand_dims(fwhmRMSF, axis=0)
+        # Images one pixel wide or high also lose axes when read.
+        nX = header["NAXIS2" if find_axes(header)[1] == 1 else "NAXIS1"]
+        FDF = FDF.reshape((FDF.shape[0], -1, nX))
+        fwhmRMSF = fwhmRMSF.reshape((-1, nX))
 
     # Fit peaks
     map_dict = pixelwise_peak_fitting(
-- 
2.43.0


From acc934b0799eb7f734cfe8686ed2df20b9a2c966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:56 +0000
Subject: [PATCH 32/50] fix: clean component model tool opens the files it is
 given

---
 RMtools_1D/clean_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/clean_model.py b/RMtools_1D/clean_model.py
index 14ab545..dfa0d2a 100755
--- a/RMtools_1D/clean_model.py
+++ b/RMtools_1D/clean_model.py
@@ -139,11 +139,11 @@ def main():
     args = parser.parse_args()
 
     phiArr, CCArr, Iparms, lambdaSq_0, freqArr = read_files(
-        args.freqfile, args.rmSynthfile, args.CCfile
+        args.freqfile[0], args.rmSynthfile[0], args.CCfile[0]
     )
     QUarr, Imodel = calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms)
 
-    save_model(args.outfile, freqArr, Imodel, QUarr)
+    save_model(args.outfile[0], freqArr, Imodel, QUarr)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From edcf0d361967eec9519e831996f830cc94b376fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:31 +0000
Subject: [PATCH 33/50] fix: predicted Q and U of clean components are not
 scaled by Stokes I twice

---
 RMtools_1D/clean_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/RMtools_1D/clean_model.py b/RMtools_1D/clean_model.py
index dfa0d2a..87d1e32 100755
--- a/RMtools_1D/clean_model.py
+++ b/RMtools_1D/clean_model.py
@@ -56,7 +56,10 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
     )
     StokesI_model = calculate_StokesI_model(fit_result, freqArr)
 
-    QUarr = StokesI_model * quarr
+    # The clean components are in flux units at the reference frequency, so only
+    # the change of Stokes I from there is applied.
+    Ifreq0 = calculate_StokesI_model(fit_result, fit_result.reference_frequency_Hz)
+    QUarr = StokesI_model / Ifreq0 * quarr
 
     return QUarr, StokesI_model
 
-- 
2.43.0


From 35896b7dfad0b356e4eff6c1f82eb538ab28e328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:31 +0000
Subject: [PATCH 34/50] fix: clean component models follow the fit function and
 reference frequency of the synthesis

---
 RMtools_1D/clean_model.py | 40 ++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/RMtools_1D/clean_model.py b/RMtools_1D/clean_model.py
index 87d1e32..ba303ba 100755
--- a/RMtools_1D/clean_model.py
+++ b/RMtools_1D/clean_model.py
@@ -17,7 +17,15 @@ from RMtools_1D.do_RMsynth_1D import readFile as read_freqFile
 from RMutils.util_misc import FitResult, calculate_StokesI_model
 
 
-def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
+def calculate_QU_model(
+    freqArr,
+    phiArr,
+    CCArr,
+    lambdaSq_0,
+    Iparms=None,
+    fit_function="log",
+    freq0_Hz=None,
+):
     """Compute the predicted Stokes Q and U values for each channel from a
     set of clean components (CCs), with optional accounting for Stokes I model.
     Inputs: freqArr: array of channel frequencies, in Hz
@@ -27,11 +35,12 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
                         which all the polarization angles are referenced.
             Iparms: list of Stokes I polynomial values. If None, all Stokes I
                     values will be set to 1.
+            fit_function: type of the Stokes I model ('log' or 'linear').
+            freq0_Hz: reference frequency of the Stokes I model, in Hz. If None,
+                    the frequency corresponding to lambdaSq_0.
     Returns:
         model: array of complex values, one per channel, of Stokes Q and U
                 predictions based on the clean component model.
-
-    CURRENTLY ASSUMES THAT STOKES I MODEL IS LOG MODEL. SHOULD BE FIXED!
     """
 
     lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr, 2.0)
@@ -39,7 +48,13 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
     a = lambdaSqArr_m2 - lambdaSq_0
     quarr = np.sum(CCArr[:, np.newaxis] * np.exp(2.0j * np.outer(phiArr, a)), axis=0)
 
-    # TODO: Pass in fit function, which is currently not output by rmsynth1d
+    if freq0_Hz is None:
+        # (lambdaSq_0 is zero in super-resolution mode)
+        freq0_Hz = (
+            speed_of_light.value / np.sqrt(lambdaSq_0)
+            if lambdaSq_0 > 0
+            else np.mean(freqArr)
+        )
     fit_result = FitResult(
         params=Iparms if Iparms is not None else [0, 0, 0, 0, 0, 1],
         fitStatus=0,
@@ -48,11 +63,11 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
         AIC=0,
         polyOrd=0,
         nIter=0,
-        reference_frequency_Hz=speed_of_light.value / np.sqrt(lambdaSq_0),
+        reference_frequency_Hz=freq0_Hz,
         dof=0,
         pcov=None,
         perror=None,
-        fit_function="log",
+        fit_function=fit_function,
     )
     StokesI_model = calculate_StokesI_model(fit_result, freqArr)
 
@@ -82,6 +97,9 @@ def read_files(freqfile, rmSynthfile, CCfile):
             CCarr: array of (complex) clean components
             Iparms: list of Stokes I model parameters.
             lambdaSq_0: scalar value of lambda^2_0, in m^2.
+            freqArr: array of channel frequencies, in Hz.
+            fit_function: type of the Stokes I model ('log' or 'linear').
+            freq0_Hz: reference frequency of the Stokes I model, in Hz.
     """
 
     phiArr, CCreal, CCimag = np.loadtxt(CCfile, unpack=True, dtype="float")
@@ -91,11 +109,13 @@ def read_files(freqfile, rmSynthfile, CCfile):
     synth_mDict = json.load(open(rmSynthfile, "r"))
     Iparms = [float(x) for x in synth_mDict["polyCoeffs"].split(",")]
     lambdaSq_0 = synth_mDict["lam0Sq_m2"]
+    fit_function = synth_mDict.get("fit_function", "log")
+    freq0_Hz = synth_mDict.get("freq0_Hz")
 
     data = read_freqFile(freqfile, 64, verbose=False, debug=False)
     freqArr = data[0]
 
-    return phiArr, CCArr, Iparms, lambdaSq_0, freqArr
+    return phiArr, CCArr, Iparms, lambdaSq_0, freqArr, fit_function, freq0_Hz
 
 
 def main():
@@ -141,10 +161,12 @@ def main():
     )
     args = parser.parse_args()
 
-    phiArr, CCArr, Iparms, lambdaSq_0, freqArr = read_files(
+    phiArr, CCArr, Iparms, lambdaSq_0, freqArr, fit_function, freq0_Hz = read_files(
         args.freqfile[0], args.rmSynthfile[0], args.CCfile[0]
     )
-    QUarr, Imodel = calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms)
+    QUarr, Imodel = calculate_QU_model(
+        freqArr, phiArr, CCArr, lambdaSq_0, Iparms, fit_function, freq0_Hz
+    )
 
     save_model(args.outfile[0], freqArr, Imodel, QUarr)
 
-- 
2.43.0


From 199e030363acb75027e7ddf309335b1296567630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:10 +0000
Subject: [PATCH 35/50] fix: RMSF calculator reads its tables as floating point
 numbers

---
 RMtools_1D/calculate_RMSF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/calculate_RMSF.py b/RMtools_1D/calculate_RMSF.py
index 486251a..8216a72 100755
--- a/RMtools_1D/calculate_RMSF.py
+++ b/RMtools_1D/calculate_RMSF.py
@@ -105,7 +105,7 @@ def main():
     # Order of priority: frequency file takes precedence over -i flag.
     #                   weight file takes precedence over 2nd column of frequency file.
     if args.freqFile != None:
-        data = np.genfromtxt(args.freqFile, encoding=None, dtype=None)
+        data = np.genfromtxt(args.freqFile, encoding=None, dtype=float)
         if len(data.shape) == 2:
             freq_array = data[:, 0]
             weights_array = data[:, 1]
@@ -122,7 +122,7 @@ def main():
         weights_array = np.ones_like(freq_array)
 
     if args.weightFile != None:
-        weights_array = np.genfromtxt(args.weightFile, encoding=None, dtype=None)
+        weights_array = np.genfromtxt(args.weightFile, encoding=None, dtype=float)
         if len(weights_array) != len(freq_array):
             raise Exception(
                 "Weights file does not have same number of channels as frequency source"
-- 
2.43.0


From 9fa6e5f6830c375ad9ea6f6d48cb7621c4787555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:10 +0000
Subject: [PATCH 36/50] fix: MAD works over all elements and along any axis of
 multi-dimensional arrays

---
 RMutils/util_misc.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 19b11b4..17ca7f1 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -1052,12 +1052,8 @@ def MAD(a, c=0.6745, axis=None):
         d = ma.median(a)
         m = ma.median(ma.fabs(a - d) / c)
     else:
-        d = ma.median(a, axis=axis)
-        if axis > 0:
-            aswp = ma.swapaxes(a, 0, axis)
-        else:
-            aswp = a
-        m = ma.median(ma.fabs(aswp - d) / c, axis=0)
+        d = ma.median(a, axis=axis, keepdims=True)
+        m = ma.median(ma.fabs(a - d) / c, axis=axis)
 
     return m
 
-- 
2.43.0


From 08566ba88b6af7467f4f5f1bf9ee0eb546e5afd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:06 +0000
Subject: [PATCH 37/50] fix: 3D tools find companion files in directories or
 with prefixes containing _im, _tot or _real

---
 RMtools_3D/RMpeakfit_3D.py  | 26 +++++++++++++++++---------
 RMtools_3D/do_RMclean_3D.py | 11 ++++-------
 RMutils/util_misc.py        | 15 +++++++++++++++
 3 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index 835a719..cb7d7c3 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -17,7 +17,11 @@ from astropy.constants import c as speed_of_light
 from tqdm.auto import trange
 
 from RMtools_3D.do_RMsynth_3D import readFitsCube, readFreqFile
-from RMutils.util_misc import interp_images, remove_header_third_fourth_axis
+from RMutils.util_misc import (
+    companion_file,
+    interp_images,
+    remove_header_third_fourth_axis,
+)
 from RMutils.util_RM import fits_make_lin_axis, measure_FDF_parms
 
 
@@ -267,7 +271,7 @@ def read_files(FDF_filename, freq_filename):
     """
 
     HDUreal = pf.open(
-        FDF_filename.replace("_tot", "_real").replace("_im", "_real"),
+        companion_file(FDF_filename, "_real"),
         "readonly",
         memmap=True,
     )
@@ -275,7 +279,7 @@ def read_files(FDF_filename, freq_filename):
     FDFreal = HDUreal[0].data
 
     HDUimag = pf.open(
-        FDF_filename.replace("_tot", "_im").replace("_real", "_im"),
+        companion_file(FDF_filename, "_im"),
         "readonly",
         memmap=True,
     )
@@ -300,12 +304,16 @@ def read_files(FDF_filename, freq_filename):
     phiArr_radm2 = fits_make_lin_axis(head, axis=FD_axis - 1)
 
     HDUfwhm = pf.open(
-        FDF_filename.replace("FDF_tot_dirty", "RMSF_FWHM")
-        .replace("FDF_real_dirty", "RMSF_FWHM")
-        .replace("FDF_im_dirty", "RMSF_FWHM")
-        .replace("FDF_clean_tot", "RMSF_FWHM")
-        .replace("FDF_clean_real", "RMSF_FWHM")
-        .replace("FDF_clean_im", "RMSF_FWHM"),
+        os.path.join(
+            os.path.dirname(FDF_filename),
+            os.path.basename(FDF_filename)
+            .replace("FDF_tot_dirty", "RMSF_FWHM")
+            .replace("FDF_real_dirty", "RMSF_FWHM")
+            .replace("FDF_im_dirty", "RMSF_FWHM")
+            .replace("FDF_clean_tot", "RMSF_FWHM")
+            .replace("FDF_clean_real", "RMSF_FWHM")
+            .replace("FDF_clean_im", "RMSF_FWHM"),
+        ),
         "readonly",
         memmap=True,
     )
diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index e21f1e3..9253cf9 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -49,6 +49,7 @@ except:
     parallel_available = False
 
 from RMtools_3D.do_RMsynth_3D import _setStokes
+from RMutils.util_misc import companion_file
 from RMutils.util_RM import do_rmclean_hogbom, fits_make_lin_axis
 
 
@@ -109,9 +110,7 @@ def run_rmclean(
 
     RMSFArr, headRMSF, FD_axis = read_FDF_cubes(fitsRMSF)
     HDULst = pf.open(
-        fitsRMSF.replace("_real", "_FWHM")
-        .replace("_im", "_FWHM")
-        .replace("_tot", "_FWHM"),
+        companion_file(fitsRMSF, "_FWHM"),
         "readonly",
         memmap=True,
     )
@@ -387,16 +386,14 @@ def read_FDF_cubes(filename):
     Returns: (complex_cube, header,FD_axis)
     """
     HDUreal = pf.open(
-        filename.replace("_tot", "_real").replace("_im", "_real"),
+        companion_file(filename, "_real"),
         "readonly",
         memmap=True,
     )
     head = HDUreal[0].header.copy()
     FDFreal = HDUreal[0].data
 
-    HDUimag = pf.open(
-        filename.replace("_tot", "_im").replace("_real", "_im"), "readonly", memmap=True
-    )
+    HDUimag = pf.open(companion_file(filename, "_im"), "readonly", memmap=True)
     FDFimag = HDUimag[0].data
     complex_cube = FDFreal + 1j * FDFimag
 
diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 17ca7f1..5d237f7 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -69,6 +69,7 @@
 # =============================================================================#
 
 import math as m
+import os
 import re
 import sys
 import traceback
@@ -1039,6 +1040,20 @@ def toscalar(a):
         return a
 
 
+# -----------------------------------------------------------------------------#
+def companion_file(filename, component):
+    """
+    Name of the file with another component (e.g. "_real", "_im" or "_FWHM") of
+    the product in the given "_tot", "_real" or "_im" file. Only the (last)
+    component label of the file itself is replaced: the directory or the prefix
+    can contain the same letters (e.g. "my_images/").
+    """
+
+    path, name = os.path.split(filename)
+    name = re.sub(r"^(.*)_(tot|real|im)(?![A-Za-z])", r"\1" + component, name)
+    return os.path.join(path, name)
+
+
 # -----------------------------------------------------------------------------#
 def MAD(a, c=0.6745, axis=None):
     """
-- 
2.43.0


From 136732a8b5d4724d847d7e16156945960881bf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:50 +0000
Subject: [PATCH 38/50] fix: bandwidth depolarisation tool accepts tables with
 channel widths

---
 RMtools_1D/rmtools_bwdepol.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index ccb5d11..57277a2 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -307,7 +307,7 @@ def bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz):
          [freq_Hz, q, u,  dq, du]
 
     """
-    if widths_Hz == None:
+    if widths_Hz is None:
         widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
 
     p_tilda = analytical_chan_pol(freqArr_Hz, widths_Hz, peak_rm)
@@ -935,7 +935,7 @@ def do_adjoint_rmsynth_planes(
         progress(40, 0)
 
     # calculate channel widths if necessary
-    if widths_Hz == None:
+    if widths_Hz is None:
         widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
     for i in range(nPhi):
         if verbose:
@@ -1041,7 +1041,8 @@ def run_adjoint_rmsynth(
                 "> Six columns found, trying [freq_Hz, widths_Hz, Q, U, dQ, dU]",
                 end=" ",
             )
-        freqArr_Hz, width_Hz, QArr, UArr, dQArr, dUArr = data
+        freqArr_Hz, widths_Hz, QArr, UArr, dQArr, dUArr = data
+        noStokesI = True
     elif data.shape[0] == 5:
         if verbose:
             log("> Five columns found, trying [freq_Hz, Q, U, dQ, dU]", end=" ")
@@ -1260,7 +1261,7 @@ def run_adjoint_rmsynth(
     mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
     mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
     mDict["N_channels"] = good_channels.size
-    if widths_Hz != None:
+    if widths_Hz is not None:
         mDict["median_channel_width"] = float(np.median(widths_Hz))
     else:
         mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
-- 
2.43.0


From 3918ba05cec37ce4b6ca541e808a2d74ddcbf564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:50 +0000
Subject: [PATCH 39/50] fix: bandwidth depolarisation tool takes Stokes I from
 the model that was fitted

---
 RMtools_1D/rmtools_bwdepol.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 57277a2..5f5b9ef 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -47,9 +47,9 @@ from matplotlib.ticker import MaxNLocator
 from RMtools_1D.do_RMsynth_1D import saveOutput
 from RMutils.util_misc import (
     MAD,
+    calculate_StokesI_model,
     create_frac_spectra,
     nanmedian,
-    poly5,
     progress,
     toscalar,
 )
@@ -1064,13 +1064,11 @@ def run_adjoint_rmsynth(
         IArr = np.ones_like(QArr)
         dIArr = np.zeros_like(QArr)
 
-    # Convert to GHz for convenience
-    freqArr_GHz = freqArr_Hz / 1e9
     dQUArr = (dQArr + dUArr) / 2.0
 
     # Fit the Stokes I spectrum and create the fractional spectra
     IModArr, qArr, uArr, dqArr, duArr, fit_result = create_frac_spectra(
-        freqArr=freqArr_GHz,
+        freqArr=freqArr_Hz,
         IArr=IArr,
         QArr=QArr,
         UArr=UArr,
@@ -1087,7 +1085,7 @@ def run_adjoint_rmsynth(
         if verbose:
             log("Plotting the input data and spectral index fit.")
         freqHirArr_Hz = np.linspace(freqArr_Hz[0], freqArr_Hz[-1], 10000)
-        IModHirArr = poly5(fit_result.params)(freqHirArr_Hz / 1e9)
+        IModHirArr = calculate_StokesI_model(fit_result, freqHirArr_Hz)
         specFig = plt.figure(figsize=(12.0, 8))
         plot_Ipqu_spectra_fig(
             freqArr_Hz=freqArr_Hz,
@@ -1216,7 +1214,7 @@ def run_adjoint_rmsynth(
     # Determine the Stokes I value at lam0Sq_m2 from the Stokes I model
     # Multiply the dirty FDF by Ifreq0 to recover the PI
     freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
-    Ifreq0 = poly5(fit_result.params)(freq0_Hz / 1e9)
+    Ifreq0 = calculate_StokesI_model(fit_result, freq0_Hz)
     dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
 
     # Calculate the theoretical noise in the FDF !!
-- 
2.43.0


From 8a28145448863fca84e81efc0f3b0de97a4b5c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:50 +0000
Subject: [PATCH 40/50] fix: bandwidth depolarisation RMSF is calculated on its
 own depth axis

---
 RMtools_1D/rmtools_bwdepol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 5f5b9ef..ec278b6 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -629,7 +629,7 @@ def bwdepol_get_rmsf_planes(
         freqArr_Hz,
         RMSF_data[1],
         RMSF_data[2],
-        phiArr_radm2,
+        phi2Arr,
         widths_Hz=widths_Hz,
         weightArr=weightArr,
         lam0Sq_m2=lam0Sq_m2,
@@ -1348,7 +1348,7 @@ def run_adjoint_rmsynth(
         bwdepol_plot_rmsf_fdf_fig(
             phiArr=phiArr_radm2,
             FDF=(dirtyFDF / adjoint_sens),
-            phi2Arr=phiArr_radm2,
+            phi2Arr=phi2Arr_radm2,
             RMSFArr=RMSFArr,
             peak_rm=peak_rm,
             fwhmRMSF=fwhmRMSF,
-- 
2.43.0


From 1dff63bd540f0d996473eb78748dd51506c09e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:50 +0000
Subject: [PATCH 41/50] fix: verbose bandwidth depolarisation runs to the end

---
 RMtools_1D/rmtools_bwdepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index ec278b6..7304aac 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1331,7 +1331,7 @@ def run_adjoint_rmsynth(
             % (mDict["ampPeakPIfit"], mDict["dAmpPeakPIfit"], units)
         )
         log("QU Noise = %.4g %s" % (mDict["dQU"], units))
-        log("FDF Noise (theory)   = %.4g %s" % (mDict["dFDFth"], units))
+        log("FDF Noise (theory)   = %.4g %s" % (dFDFth, units))
         log("FDF Noise (Corrected MAD) = %.4g %s" % (mDict["dFDFcorMAD"], units))
         log("FDF SNR = %.4g " % (mDict["snrPIfit"]))
         log(
-- 
2.43.0


From 74049d068db1cd5d113a2b18dc80ef0f094e409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:50 +0000
Subject: [PATCH 42/50] fix: bandwidth depolarisation noise ignores flagged
 channels

---
 RMtools_1D/rmtools_bwdepol.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 7304aac..a4a7690 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -198,7 +198,7 @@ def adjoint_theory(adjoint_vars, dQUArr, show_progress=False, log=print):
 
         r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])
         adjoint_noise2 = (
-            np.sum((weightArr * dQUArr) ** 2 * np.abs(r_i) ** 2)
+            np.sum((weightArr * np.nan_to_num(dQUArr)) ** 2 * np.abs(r_i) ** 2)
             / np.sum(weightArr) ** 2
         )  # equation 34
         adjoint_noise[i] = np.sqrt(adjoint_noise2)
@@ -1195,7 +1195,7 @@ def run_adjoint_rmsynth(
         widths_Hz=widths_Hz,
         phiArr_radm2=phiArr_radm2,
         weightArr=weightArr,
-        mskArr=~np.isfinite(qArr),
+        mskArr=~(np.isfinite(qArr) & np.isfinite(uArr)),
         lam0Sq_m2=lam0Sq_m2,
         double=True,
         fitRMSF=fitRMSF,
@@ -1255,7 +1255,9 @@ def run_adjoint_rmsynth(
         log("Caution: Stokes I model has low signal-to-noise.")
 
     # Add information on nature of channels:
-    good_channels = np.where(np.logical_and(weightArr != 0, np.isfinite(qArr)))[0]
+    good_channels = np.where(
+        np.logical_and(weightArr != 0, np.isfinite(qArr) & np.isfinite(uArr))
+    )[0]
     mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
     mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
     mDict["N_channels"] = good_channels.size
-- 
2.43.0


From eb6dad5eb853c232aff53bc6ff67f0053c228e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:10 +0000
Subject: [PATCH 43/50] fix: bandwidth depolarisation prediction uses the
 requested number of samples

---
 RMtools_1D/rmtools_bwpredict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/rmtools_bwpredict.py b/RMtools_1D/rmtools_bwpredict.py
index 23dcb79..4de3a46 100644
--- a/RMtools_1D/rmtools_bwpredict.py
+++ b/RMtools_1D/rmtools_bwpredict.py
@@ -53,7 +53,7 @@ if sys.version_info.major == 2:
 
 # -----------------------------------------------------------------------------#
 def bwdepol_compute_predictions(
-    freqArr_Hz, widths_Hz=None, phiMax_radm2=None, dPhi_radm2=None
+    freqArr_Hz, widths_Hz=None, phiMax_radm2=None, dPhi_radm2=None, nSamples=10.0
 ):
     """Computes theoretical sensitivity and noise curves for given
     channelization.
@@ -90,7 +90,7 @@ def bwdepol_compute_predictions(
     # Set the Faraday depth range
     fwhmRMSF_radm2 = 2.0 * m.sqrt(3.0) / lambdaSqRange_m2
     if dPhi_radm2 is None:
-        dPhi_radm2 = fwhmRMSF_radm2
+        dPhi_radm2 = fwhmRMSF_radm2 / nSamples
     if phiMax_radm2 is None:
         phiMax_radm2 = 2 * m.sqrt(3.0) / dLambdaSqMin_m2
 
@@ -198,6 +198,7 @@ def main():
         widths_Hz=widths_Hz,
         phiMax_radm2=args.phiMax_radm2,
         dPhi_radm2=args.dPhi_radm2,
+        nSamples=args.nSamples,
     )
 
     # plot adjoint info
-- 
2.43.0


From e7351724ec538d89d70aceb6dee901d81a99a84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:04 +0000
Subject: [PATCH 44/50] fix: channel polarisation takes the initial
 polarisation angle into account

---
 RMtools_1D/rmtools_bwdepol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index a4a7690..9a99dd5 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -277,9 +277,9 @@ def analytical_chan_pol(f, ban, phi, xi_knot=0, p=1):
     yb = rotation_integral_limit(
         b,
         phi,
-    )  # check orig for xi_knot
+    )
 
-    i = p * (yb - ya)
+    i = p * np.exp(2.0j * xi_knot) * (yb - ya)
     avg_p_tilda = i / ban
 
     return avg_p_tilda
-- 
2.43.0


From b3d480c6f0d4013831ba0b838a4fa49a22a16203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:05 +0000
Subject: [PATCH 45/50] fix: do_RMsynth_1D_fromFITS only refuses a pixel when
 both Q and U are zero

The sanity check looked at Q twice, so a pixel polarised purely in U was
refused as 'All QU values zero'.
---
 RMtools_1D/do_RMsynth_1D_fromFITS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/do_RMsynth_1D_fromFITS.py b/RMtools_1D/do_RMsynth_1D_fromFITS.py
index 8dae6af..df009e2 100644
--- a/RMtools_1D/do_RMsynth_1D_fromFITS.py
+++ b/RMtools_1D/do_RMsynth_1D_fromFITS.py
@@ -243,7 +243,7 @@ def main():
         else:
             args.units = "Jy/beam"
 
-    if (Q_array != 0).sum() == 0 and (Q_array != 0).sum() == 0:
+    if (Q_array != 0).sum() == 0 and (U_array != 0).sum() == 0:
         raise Exception("All QU values zero! Maybe invalid pixel?")
 
     if args.StokesI_fits is not None:
-- 
2.43.0


From 18c4e4b6fe5662ada5b4f367b07e744dc5e218f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:05 +0000
Subject: [PATCH 46/50] fix: do_RMsynth_1D_fromFITS refuses positions outside
 the image

A position left of or below the image (pixel 0 or less) became a negative
index, and the spectrum of a pixel on the opposite side was used silently.
---
 RMtools_1D/do_RMsynth_1D_fromFITS.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/RMtools_1D/do_RMsynth_1D_fromFITS.py b/RMtools_1D/do_RMsynth_1D_fromFITS.py
index df009e2..67359c9 100644
--- a/RMtools_1D/do_RMsynth_1D_fromFITS.py
+++ b/RMtools_1D/do_RMsynth_1D_fromFITS.py
@@ -273,8 +273,18 @@ def main():
 
 
 def get_data_Q_U(filename, ycoords, xcoords):
+    """Read the spectrum of one (0-indexed) pixel of a cube."""
     hduList = fits.open(filename)
-    return hduList[0].data[:, ycoords, xcoords]
+    data = hduList[0].data
+    ysize, xsize = data.shape[-2:]
+    # A negative index would silently select a pixel on the opposite side.
+    if not (0 <= ycoords < ysize and 0 <= xcoords < xsize):
+        raise Exception(
+            "Pixel {} x {} (1-indexed) is outside the image of {}.".format(
+                xcoords + 1, ycoords + 1, filename
+            )
+        )
+    return data[:, ycoords, xcoords]
 
 
 # -----------------------------------------------------------------------------#
-- 
2.43.0


From 101b0a4280ecfb43b0a402584aa269bb76c97885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:05 +0000
Subject: [PATCH 47/50] fix: do_RMsynth_1D_fromFITS handles cubes with a
 degenerate Stokes axis

The frequency list is taken from 4-axis headers too, but the data were
indexed as if they had three axes: the y pixel selected a channel and the
x pixel an image row.
---
 RMtools_1D/do_RMsynth_1D_fromFITS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RMtools_1D/do_RMsynth_1D_fromFITS.py b/RMtools_1D/do_RMsynth_1D_fromFITS.py
index 67359c9..db24ea4 100644
--- a/RMtools_1D/do_RMsynth_1D_fromFITS.py
+++ b/RMtools_1D/do_RMsynth_1D_fromFITS.py
@@ -276,6 +276,8 @@ def get_data_Q_U(filename, ycoords, xcoords):
     """Read the spectrum of one (0-indexed) pixel of a cube."""
     hduList = fits.open(filename)
     data = hduList[0].data
+    if data.ndim == 4 and 1 in data.shape[:2]:  # drop a degenerate Stokes axis
+        data = data.reshape((-1,) + data.shape[2:])
     ysize, xsize = data.shape[-2:]
     # A negative index would silently select a pixel on the opposite side.
     if not (0 <= ycoords < ysize and 0 <= xcoords < xsize):
-- 
2.43.0


From c2232a54def1ef4402b64ca6ec295afb1f99bf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:14 +0000
Subject: [PATCH 48/50] fix: strip_fits_dims removes every matrix keyword of
 the stripped axes

Only PC00i00j and CD1_j/CD2_j were removed: PCi_j or CD3_j of a stripped axis
stayed behind and gave the 2D header a third world axis.
---
 RMutils/util_FITS.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/RMutils/util_FITS.py b/RMutils/util_FITS.py
index 64335af..68fe1b9 100644
--- a/RMutils/util_FITS.py
+++ b/RMutils/util_FITS.py
@@ -226,16 +226,17 @@ def strip_fits_dims(data=None, header=None, minDim=2, forceCheckDims=0):
                     except Exception:
                         pass
 
-        # Delete the PC array keyword entries
+        # Delete the PC and CD matrix keyword entries (current and old forms)
         for i in range(1, naxis + 1):
             for j in range(1, naxis + 1):
-                key = "PC" + "%03d" % i + "%03d" % j
                 if i > minDim or j > minDim:
-                    if key in header:
-                        try:
-                            del header[key]
-                        except Exception:
-                            pass
+                    for fmt in ["PC%03d%03d", "PC%d_%d", "CD%03d%03d", "CD%d_%d"]:
+                        key = fmt % (i, j)
+                        if key in header:
+                            try:
+                                del header[key]
+                            except Exception:
+                                pass
 
         header["NAXIS"] = minDim
         header["WCSAXES"] = minDim
-- 
2.43.0


From a407a39213ec9ca510f1032168024344d10404e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:14 +0000
Subject: [PATCH 49/50] fix: get_beam_from_header finds the AIPS CLEAN beam in
 the history

Header.get_history no longer exists in astropy; the error was swallowed and
the beam recorded in the history was never found.
---
 RMutils/util_FITS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_FITS.py b/RMutils/util_FITS.py
index 68fe1b9..3d61749 100644
--- a/RMutils/util_FITS.py
+++ b/RMutils/util_FITS.py
@@ -279,7 +279,7 @@ def get_beam_from_header(header):
     bmHistPat = re.compile(beamHistStr)
     if bmaj is None or bmin is None:
         try:
-            history = header.get_history()
+            history = [str(entry) for entry in header["HISTORY"]]
             history.reverse()
             for i in range(len(history)):
                 mch = bmHistPat.match(history[i])
-- 
2.43.0


From 35d2f99b001b9d9c7e17a0af412fee7c47ffbd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:14 +0000
Subject: [PATCH 50/50] fix: 2D output headers keep no rotation or CD matrix
 keyword of removed axes

CD3_3, PC003003, CROTA3 and the like stayed in the headers of 2D maps, which
thereby had a third world axis.
---
 RMutils/util_misc.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 5d237f7..03c70b4 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -159,6 +159,14 @@ def remove_header_third_fourth_axis(header):
         "PC4_4",
     ]
 
+    # Rotations and the other forms of the transformation matrices
+    keys_to_remove += ["CROTA3", "CROTA4"]
+    for i in range(1, 5):
+        for j in range(1, 5):
+            if max(i, j) > 2:
+                for fmt in ["PC%d_%d", "PC%03d%03d", "CD%d_%d", "CD%03d%03d"]:
+                    keys_to_remove.append(fmt % (i, j))
+
     for key in keys_to_remove:
         # Header can dynamically change when keys are removed so use pop
         header.pop(key, None)
-- 
2.43.0

