From 2dfdb30dca9ce08561fca20532e1f06619640029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:49 +0000
Subject: [PATCH 01/20] fix: stamps starting beyond the image edge are empty

---
 metadetect/detect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metadetect/detect.py b/metadetect/detect.py
index 3ddf4f5..481d84e 100644
--- a/metadetect/detect.py
+++ b/metadetect/detect.py
@@ -146,7 +146,8 @@ class MEDSInterface(NGMixMEDS):
         diff = im_max - obox[1]
         if diff < 0:
             obox[1] = im_max
-            box[1] = box[1] + diff
+            # the box may start beyond the image
+            box[1] = max(box[0], box[1] + diff)
 
         return obox, box
 
-- 
2.43.0


From a836f1386273847024078a0a8c9f4148683ae35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:48 +0000
Subject: [PATCH 02/20] fix: refuse to coadd bands that do not exist for single
 band data

---
 metadetect/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/fitting.py b/metadetect/fitting.py
index abc3661..c624620 100644
--- a/metadetect/fitting.py
+++ b/metadetect/fitting.py
@@ -520,7 +520,7 @@ def make_coadd_obs(mbobs, shear_bands=None):
     # if we have one input band, then simply
     # return if if the data is consistent
     if nbands == 1:
-        if shear_bands[0] == 0:
+        if all(s == 0 for s in shear_bands):
             return mbobs[0][0], flags
         else:
             flags |= procflags.INCONSISTENT_BANDS
-- 
2.43.0


From eb2db16299a4b9d4d846a0439e983350f93b1b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:12 +0000
Subject: [PATCH 03/20] fix: interpolating over an empty mask returns the image

---
 metadetect/interpolate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadetect/interpolate.py b/metadetect/interpolate.py
index 7130ae9..09a1672 100644
--- a/metadetect/interpolate.py
+++ b/metadetect/interpolate.py
@@ -203,6 +203,10 @@ def interpolate_image_at_mask(
                     size=shape, scale=1.0/np.sqrt(weight)
                 )
 
+        if nbad == 0:
+            # nothing (left) to interpolate
+            return interp_image
+
         good_pix = np.array(good_yx).T
         bad_pix = np.array(bad_yx).T
         good_im = interp_image[good_yx[0], good_yx[1]]
-- 
2.43.0


From 49173a39a3d3c8f27ba75be1611a81aeef6bb936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:58 +0000
Subject: [PATCH 04/20] fix: look up the bmask of the source being measured

bmasks was built over all sources, parents included, but indexed by the
position among the children.
---
 metadetect/lsst/measure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index e29ddef..997ef5d 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -361,15 +361,13 @@ def measure(
     wcs = mbexp.singles[0].getWcs()
     results = []
 
-    bmasks = get_bmasks(sources=sources, exposure=detexp)
-
     extractor = _get_extractor(
         mbexp=mbexp,
         sources=sources,
         model_data=model_data,
     )
 
-    for i, source in enumerate(extractor.children()):
+    for source in extractor.children():
 
         # perform basic measurements using stack algorithms
         # see DetectAndDeblendConfig for details
@@ -377,7 +375,7 @@ def measure(
 
         source_id = source.getId()
 
-        bmask = bmasks[i]
+        bmask = get_bmask(source=source, exposure=detexp)
 
         stamp_flags = 0
         try:
-- 
2.43.0


From 30c424d3dcf697b9a1c6ec3ce2e0ae31018776ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:58 +0000
Subject: [PATCH 05/20] fix: return three values from DetectAndDeblendTask.run
 without detexp

All callers unpack sources, detexp, model_data.
---
 metadetect/lsst/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index 997ef5d..ec955be 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -175,7 +175,7 @@ class DetectAndDeblendTask(Task):
         if len(mbexp.singles) > 1:
             detexp = util.coadd_exposures(mbexp.singles)
             if detexp is None:
-                return [], None
+                return [], None, None
         else:
             detexp = mbexp.singles[0]
 
-- 
2.43.0


From 186902e9419bd90144de61d21c98f615c423a12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:58 +0000
Subject: [PATCH 06/20] fix: index mfrac by row, column in
 measure_weighted_mfrac

---
 metadetect/lsst/metadetect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 2bc7deb..dc13fca 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -408,7 +408,7 @@ def measure_weighted_mfrac(
         if yend > ny:
             yend = ny
 
-        sub_mfrac = mfrac[xstart:xend, ystart:yend]
+        sub_mfrac = mfrac[ystart:yend, xstart:xend]
         if sub_mfrac.size == 0:
             mfracs.append(1.0)
         else:
-- 
2.43.0


From 4bf46b68dfd2ba56b5f531150caf6438e7a715af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:58 +0000
Subject: [PATCH 07/20] fix: proceed when fitting the original psfs fails

g1 and g2 were not set and the check on the number of averaged bands failed.
---
 metadetect/lsst/metadetect.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index dc13fca..416b69c 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -631,18 +631,20 @@ def fit_original_psfs_mbexp(mbexp, rng, wgts, config):
 
         g1, g2 = ngmix.shape.e1e2_to_g1g2(e1=e1, e2=e2)
 
+        assert navg == len(shear_band_indices), (
+            f'summed {navg} but expected {len(shear_band_indices)}'
+        )
+
     except (BootPSFFailure, GMixRangeError):
         flags = procflags.PSF_FAILURE
         e1 = -9999.0
         e2 = -9999.0
+        g1 = -9999.0
+        g2 = -9999.0
         T = -9999.0
 
         perband = None
 
-    assert navg == len(shear_band_indices), (
-        f'summed {navg} but expected {len(shear_band_indices)}'
-    )
-
     return {
         'flags': flags,
         'navg': navg,
-- 
2.43.0


From 6466dfb26acb296a2137daa71944572601a1f477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 08/20] fix: mfrac_mbexp is optional in get_mfrac_mbexp

run_metadetect and run_photometry document and default it to None.
---
 metadetect/lsst/metadetect.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 416b69c..8ff47cb 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -481,6 +481,8 @@ def get_mfrac_mbexp(mbexp, mfrac_mbexp):
     ----------
     mbexp: lsst.afw.image.MultibandExposure
         The exposures to process
+    mfrac_mbexp: lsst.afw.image.MultibandExposure or None
+        The masked fractions; zero everywhere if not sent
 
     Returns
     -------
@@ -490,8 +492,13 @@ def get_mfrac_mbexp(mbexp, mfrac_mbexp):
 
     wsum = 0.0
 
+    if mfrac_mbexp is None:
+        mfrac_images = [np.zeros_like(exp.image.array) for exp in mbexp]
+    else:
+        mfrac_images = [mfrac_exp.image.array for mfrac_exp in mfrac_mbexp]
+
     mfrac = None
-    for exp, mfrac_exp in zip(mbexp, mfrac_mbexp):
+    for exp, mfrac_image in zip(mbexp, mfrac_images):
         varray = exp.variance.array
         w = np.where(np.isfinite(varray) & (varray > 0))
 
@@ -504,9 +511,9 @@ def get_mfrac_mbexp(mbexp, mfrac_mbexp):
         wsum += wgt
 
         if mfrac is None:
-            mfrac = wgt * mfrac_exp.image.array
+            mfrac = wgt * mfrac_image
         else:
-            mfrac += wgt * mfrac_exp.image.array
+            mfrac += wgt * mfrac_image
 
     mfrac *= 1.0 / wsum
 
-- 
2.43.0


From 3600a360400721416a542215097daad71b47b04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 09/20] fix: override stamp_size in the config rather than in a
 copy

toDict() returns a new dict, so the requested stamp_size was ignored.
---
 metadetect/lsst/util.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 942d006..4b409cd 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -1229,10 +1229,7 @@ def override_config(config, config_override: dict):
             # Use recursion to allow for arbitrarily nested config objects.
             override_config(subconfig, value)
         else:
-            if key == 'stamp_size':
-                config.toDict()[key] = value
-            else:
-                setattr(config, key, value)
+            setattr(config, key, value)
 
 
 def get_fitter(config, rng=None):
-- 
2.43.0


From e8aaf3886cf5e09002ae162c7ce14cfa828e2f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 10/20] fix: use the configured deblender in run_photometry

---
 metadetect/lsst/photometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metadetect/lsst/photometry.py b/metadetect/lsst/photometry.py
index 972debc..de0c3c4 100644
--- a/metadetect/lsst/photometry.py
+++ b/metadetect/lsst/photometry.py
@@ -68,6 +68,7 @@ def run_photometry(
 
     dbtask = measure.get_detect_and_deblend_task(
         thresh=config['detect']['thresh'],
+        deblender=config['deblender'],
         rng=rng,
     )
     sources, detexp, model_data = dbtask.run(
-- 
2.43.0


From 60442ed2d824185e1b0f2b040a82c3bfc294c2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 11/20] fix: MBObsExtractor.get_stamp used an attribute that is
 never set

---
 metadetect/lsst/mbobs_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/mbobs_extractor.py b/metadetect/lsst/mbobs_extractor.py
index aeac9ed..9c0882b 100644
--- a/metadetect/lsst/mbobs_extractor.py
+++ b/metadetect/lsst/mbobs_extractor.py
@@ -130,7 +130,7 @@ class MBObsExtractor(object):
             clip=clip,
         )
 
-        exposures = [self.mbexp[band][bbox] for band in self.bands]
+        exposures = [self.mbexp[band][bbox] for band in self.mbexp.bands]
         return util.get_mbexp(exposures)
 
     def get_mbobs(
-- 
2.43.0


From 2d3c9861e3c1703631f183073cf4e28c164705bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 12/20] fix: ModelSubtractor.get_bbox without a stamp size

only the footprint is stored in self.footprints
---
 metadetect/lsst/model_subtractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/model_subtractor.py b/metadetect/lsst/model_subtractor.py
index 9548bbb..c566a74 100644
--- a/metadetect/lsst/model_subtractor.py
+++ b/metadetect/lsst/model_subtractor.py
@@ -409,7 +409,7 @@ class ModelSubtractor(object):
                     )
 
         else:
-            parent_id, fp = self.footprints[source_id]
+            fp = self.footprints[source_id]
             bbox = fp.getBBox()
 
         return bbox
-- 
2.43.0


From bd47f7d9106a6ff72cb0acf20483f09180d10390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 13/20] fix: ModelSubtractor with single band models

scarletModelToHeavy returns a HeavyFootprint for one band, but the
footprints are indexed by band.
---
 metadetect/lsst/model_subtractor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadetect/lsst/model_subtractor.py b/metadetect/lsst/model_subtractor.py
index c566a74..764cfa8 100644
--- a/metadetect/lsst/model_subtractor.py
+++ b/metadetect/lsst/model_subtractor.py
@@ -440,6 +440,9 @@ class ModelSubtractor(object):
                     bbox = footprint.getBBox()
 
                     heavy = scarletModelToHeavy(source=scl_source, blend=blend)
+                    if len(bands) == 1:
+                        # single band models are not keyed by band
+                        heavy = {bands[0]: heavy}
 
                     for band in bands:
                         heavy[band].subtractFrom(self.mbexp[band].image[bbox])
-- 
2.43.0


From 1e8dee171238f13d87d7d74101c5ac59ffae7252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 14/20] fix: sky position of sources without a centroid

The peak is used as the position of sources for which centroiding failed,
but ra and dec were still computed from the nan centroid.
---
 metadetect/lsst/measure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index ec955be..05189ab 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -651,8 +651,6 @@ def get_output(wcs, source, res, bmask, stamp_size, exp_bbox):
 
     orig_cen = source.getCentroid()
 
-    skypos = wcs.pixelToSky(orig_cen)
-
     peak = source.getFootprint().getPeaks()[0]
     peak_loc = peak.getI()
 
@@ -665,6 +663,9 @@ def get_output(wcs, source, res, bmask, stamp_size, exp_bbox):
             orig_cen.getY() - peak_loc.getY(),
         )
 
+    # after any fallback, so it matches the position in the image
+    skypos = wcs.pixelToSky(orig_cen)
+
     output['stamp_size'] = stamp_size
     output['row0'] = exp_bbox.getBeginY()
     output['col0'] = exp_bbox.getBeginX()
-- 
2.43.0


From f1a576f9d437cceee2ea513c800831a4b41f3f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 15/20] fix: evaluate the psfs for the coadd inside the
 exposures

The center did not include xy0, so position dependent psfs were evaluated
elsewhere for exposures that are part of a larger frame.
---
 metadetect/lsst/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 4b409cd..2399c5c 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -483,7 +483,8 @@ def coadd_exposures(exposures):
         shape = exp.image.array.shape
 
         ycen, xcen = (np.array(shape) - 1) / 2
-        cen = geom.Point2D(xcen, ycen)
+        # position in the frame of the exposure, which may not start at zero
+        cen = geom.Point2D(xcen, ycen) + geom.Extent2D(exp.getXY0())
 
         psfobj = exp.getPsf()
         this_psfim = psfobj.computeKernelImage(cen).array
-- 
2.43.0


From a43b5836b637cd8ec255da3859781d56607fc51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:59 +0000
Subject: [PATCH 16/20] fix: add the noise once per metacal type in
 get_metacal_exps_fixnoise

A type listed twice had its noise image added twice and its variance
multiplied by four; the multiband version already adds it once.
---
 metadetect/lsst/metacal_exposures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/metacal_exposures.py b/metadetect/lsst/metacal_exposures.py
index 71c4308..3c2780e 100644
--- a/metadetect/lsst/metacal_exposures.py
+++ b/metadetect/lsst/metacal_exposures.py
@@ -142,7 +142,7 @@ def get_metacal_exps_fixnoise(exp, noise_exp, psf_stats=None, types=None):
         noise_exp, psf_stats=psf_stats, types=types, rot=True,
     )
 
-    for shear_type in types:
+    for shear_type in mdict:
         exp = mdict[shear_type]
         nexp = noise_mdict[shear_type]
 
-- 
2.43.0


From 3e0ac91806bf5d02f0026433d08c54f43e6060bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:37 +0000
Subject: [PATCH 17/20] fix: leave configuration overrides of the caller
 unchanged

The detection threshold was written into the dictionary given as config.
---
 metadetect/lsst/measure.py | 3 ++-
 metadetect/lsst/skysub.py  | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index 05189ab..30c7ba9 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 import warnings
 import numpy as np
@@ -290,7 +291,7 @@ def get_detect_and_deblend_task(
     sources, detexp
         The sources and the detection exposure
     """
-    config_override = config if config is not None else {}
+    config_override = copy.deepcopy(config) if config is not None else {}
     if thresh:
         if 'detect' not in config_override:
             config_override['detect'] = {}
diff --git a/metadetect/lsst/skysub.py b/metadetect/lsst/skysub.py
index 91de57e..6dee021 100644
--- a/metadetect/lsst/skysub.py
+++ b/metadetect/lsst/skysub.py
@@ -1,3 +1,5 @@
+import copy
+
 import lsst.afw.table as afw_table
 from lsst.meas.algorithms import (
     SubtractBackgroundTask,
@@ -142,7 +144,7 @@ def subtract_sky_mbexp(mbexp, thresh=DEFAULT_THRESH, config=None):
     thresh: float
         Threshold for detection
     """
-    config_override = config if config is not None else {}
+    config_override = copy.deepcopy(config) if config is not None else {}
 
     if thresh:
         if 'iterate_detection_and_skysub' not in config_override:
@@ -187,7 +189,7 @@ def iterate_detection_and_skysub(
     if niter < 1:
         raise ValueError(f'niter {niter} is less than 1')
 
-    config_override = config if config is not None else {}
+    config_override = copy.deepcopy(config) if config is not None else {}
 
     # set threshold
     if 'detect' not in config_override:
-- 
2.43.0


From 36b85b3782d88e48bcd5085a586f7f43a4560208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 18/20] fix: leave the caller's configuration unchanged in
 Metadetect

---
 metadetect/metadetect.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metadetect/metadetect.py b/metadetect/metadetect.py
index 9f9547c..f71830e 100644
--- a/metadetect/metadetect.py
+++ b/metadetect/metadetect.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 import time
 
@@ -177,7 +178,8 @@ class Metadetect(dict):
         set the config, dealing with defaults
         """
 
-        self.update(config)
+        # the defaults set below must not end up in the caller's config
+        self.update(copy.deepcopy(config))
         assert 'metacal' in self, \
             'metacal setting must be present in config'
         assert 'meds' in self, \
-- 
2.43.0


From 7665028ead42c0162aa6f9d829814ea051d9c9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 19/20] fix: exposures with no usable pixel do not spoil coadds

The median of no variances is nan, which made the whole coadd nan and the
check for no weight pass.
---
 metadetect/lsst/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 2399c5c..ed781cd 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -501,6 +501,10 @@ def coadd_exposures(exposures):
         coadd_exp.mask.array |= exp.mask.array
 
         w = np.where(exp.variance.array > 0)
+        if w[0].size == 0:
+            # nothing usable in this exposure, it gets no weight
+            continue
+
         medvar = np.median(exp.variance.array[w])
         this_weight = 1.0 / medvar
 
-- 
2.43.0


From 7c70f37f52d69f3ba27698b513e0820881f07359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 20/20] fix: model stamps have the requested size

get_model and get_stamp(type='model') ignored stamp_size and clip.
---
 metadetect/lsst/model_subtractor.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/metadetect/lsst/model_subtractor.py b/metadetect/lsst/model_subtractor.py
index 764cfa8..248576a 100644
--- a/metadetect/lsst/model_subtractor.py
+++ b/metadetect/lsst/model_subtractor.py
@@ -332,6 +332,10 @@ class ModelSubtractor(object):
         exposures = []
         for band in self.bands:
             im = heavy[band].extractImage()
+            if stamp_size is not None:
+                im = self._get_model_stamp(
+                    im, self.get_bbox(source_id, stamp_size, clip),
+                )
             masked_im = afw_image.MaskedImageF(im.clone())
             exp = afw_image.ExposureF(masked_im)
             exp.setFilter(afw_image.FilterLabel(band))
@@ -339,6 +343,22 @@ class ModelSubtractor(object):
 
         return util.get_mbexp(exposures)
 
+    def _get_model_stamp(self, model_image, bbox):
+        """
+        Get the part of the model image within the bounding box
+        """
+        stamp = afw_image.ImageF(bbox)
+        stamp.array[:, :] = 0
+
+        overlap = geom.Box2I(bbox)
+        overlap.clip(model_image.getBBox())
+        if not overlap.isEmpty():
+            # pixels outside the footprint are nan in the model image
+            stamp[overlap].array[:, :] = np.nan_to_num(
+                model_image[overlap].array
+            )
+        return stamp
+
     def get_full_model(self):
         """
         Get a full model image of all sources.
-- 
2.43.0

