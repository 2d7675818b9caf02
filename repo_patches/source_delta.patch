From 6968191623b397073716db766815f492f78325d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 01/82] fix: copying an image or dataset without its data still
 copies the headers

---
 corgidrp/data.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 1405464..5da774d 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -505,6 +505,11 @@ class Image():
             new_img = copy.deepcopy(self)
         else:
             new_img = copy.copy(self)
+            # headers are always copied, even when the data are not
+            new_img.pri_hdr = self.pri_hdr.copy()
+            new_img.ext_hdr = self.ext_hdr.copy()
+            new_img.err_hdr = self.err_hdr.copy()
+            new_img.dq_hdr = self.dq_hdr.copy()
             # copy the hdu_list and hdu_names list, but not their pointers
             new_img.hdu_list = self.hdu_list.copy()
             new_img.hdu_names = copy.copy(self.hdu_names)
-- 
2.43.0


From 5f05bae7beed90263043da32b0d66a7451aa9950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 02/82] fix: splitting a dataset on text and numeric keywords
 keeps the numeric values

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 5da774d..d79f1a6 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -229,7 +229,7 @@ class Dataset():
                 col_names.append(key)
                 col_vals.append(dataset_vals)
 
-        all_data = np.array(col_vals).T
+        all_data = np.array(col_vals, dtype=object).T # object dtype so that text and numeric keywords can be mixed
 
         # track all combinations
         df = pd.DataFrame(data=all_data, columns=col_names)
-- 
2.43.0


From c50464cbed5b23f60acde77a1235af32ba48a849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 03/82] fix: prescan bias rows are taken from the detector
 geometry passed in

---
 corgidrp/l1_to_l2a.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index c0d30b6..2465c79 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -80,9 +80,9 @@ def prescan_biassub(input_dataset, noise_maps=None, return_full_frame=False,
                 image_err = np.array(image_err)
 
                 # Get the part of the prescan that lines up with the image
-                i_r0 = detector_areas[arrtype]['image']['r0c0'][0]
-                p_r0 = detector_areas[arrtype]['prescan']['r0c0'][0]
-                i_nrow = detector_areas[arrtype]['image']['rows']
+                i_r0 = detector_regions[arrtype]['image']['r0c0'][0]
+                p_r0 = detector_regions[arrtype]['prescan']['r0c0'][0]
+                i_nrow = detector_regions[arrtype]['image']['rows']
                 al_prescan = prescan[(i_r0-p_r0):(i_r0-p_r0+i_nrow), :]
 
         else:
-- 
2.43.0


From 434a7e7e7a90c4d46ccf6de25b956804bbf76fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 04/82] fix: prescan bias of ENG_CONV frames uses the reliable
 columns instead of an empty selection

---
 corgidrp/l1_to_l2a.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index 2465c79..5081d83 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -98,8 +98,10 @@ def prescan_biassub(input_dataset, noise_maps=None, return_full_frame=False,
 
             al_prescan = prescan
 
-        st = detector_regions[arrtype]['prescan']['col_start']
-        end = detector_regions[arrtype]['prescan']['col_end']
+        # reliable prescan columns are given in full-frame coordinates
+        p_c0 = detector_regions[arrtype]['prescan']['r0c0'][1]
+        st = detector_regions[arrtype]['prescan']['col_start'] - p_c0
+        end = detector_regions[arrtype]['prescan']['col_end'] - p_c0
 
         # Measure bias and error (standard error of the median for each row, add this to 3D image array)
         medbyrow = np.median(al_prescan[:,st:end], axis=1)[:, np.newaxis]
-- 
2.43.0


From eaff803669de57bf4b0b5b02134bd41f01aeea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 05/82] fix: cosmic ray detection uses the measured EM gain
 when it is in the header

---
 corgidrp/l1_to_l2a.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index 5081d83..fa6762a 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -232,7 +232,7 @@ def detect_cosmic_rays(input_dataset, detector_params, k_gain = None, sat_thresh
                 emgain = frame.ext_hdr['EMGAIN_A']
             else: # otherwise use commanded EM gain
                 emgain = frame.ext_hdr['EMGAIN_C']
-            emgain_list.append(emgain)
+        emgain_list.append(emgain)
     emgain_arr = np.array(emgain_list)
     fwcpp_e_arr = np.array([detector_params.params['FWC_PP_E'] for frame in crmasked_dataset])
     fwcem_e_arr = np.array([detector_params.params['FWC_EM_E'] for frame in crmasked_dataset])
-- 
2.43.0


From f9408c15429a300da0b07dde98528fac0bac1714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 06/82] fix: bad pixel correction keeps data quality flags
 above 128

---
 corgidrp/l2a_to_l2b.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 3b03767..77ba692 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -367,11 +367,11 @@ def correct_bad_pixels(input_dataset, bp_mask):
 
     data = input_dataset.copy()
     data_cube = data.all_data
-    dq_cube = data.all_dq.astype(np.uint8)
+    dq_cube = data.all_dq.astype(int)
 
     for i in range(data_cube.shape[0]):
         # combine DQ and BP masks
-        bp_dq_mask = np.bitwise_or(dq_cube[i],bp_mask.data.astype(np.uint8))
+        bp_dq_mask = np.bitwise_or(dq_cube[i],bp_mask.data.astype(int))
         # mask affected pixels with NaN
         bp = np.where(bp_dq_mask != 0)
         data_cube[i, bp[0], bp[1]] = np.nan
-- 
2.43.0


From 0a9e19354a26192d2163874194fafbe406c1b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 07/82] fix: flagging NaN pixels keeps the data quality flags
 already set

---
 corgidrp/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/detector.py b/corgidrp/detector.py
index 77b3c0d..253f0bc 100644
--- a/corgidrp/detector.py
+++ b/corgidrp/detector.py
@@ -608,6 +608,6 @@ def flag_nans(dataset,flag_val=1):
 
     # mask bad pixels
     bad = np.isnan(dataset_out.all_data)
-    dataset_out.all_dq[bad] = flag_val
+    dataset_out.all_dq[bad] = np.bitwise_or(dataset_out.all_dq[bad].astype(int), flag_val)
 
     return dataset_out
-- 
2.43.0


From 312884ba78f2204b45aed2f8cf2be13cd4014926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 08/82] fix: conversion to electrons keeps the individual error
 layers instead of zeroing them

---
 corgidrp/l2a_to_l2b.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 77ba692..d647bc1 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -273,7 +273,7 @@ def convert_to_electrons(input_dataset, k_gain):
     kgain = k_gain.value #extract from caldb
     kgainerr = k_gain.error[0]
     # x = c*kgain, where c (counts beforehand) and kgain both have error, so do propogation of error due to the product of 2 independent sources
-    kgain_error = np.zeros_like(input_dataset.all_err)
+    kgain_error = kgain_dataset.all_err * kgain # individual error layers scale with the data
     kgain_tot_err = (np.sqrt((kgain*kgain_dataset.all_err[:,0,:,:])**2 + (kgain_cube*kgainerr)**2))
     kgain_error[:,0,:,:] = kgain_tot_err
     kgain_cube *= kgain
-- 
2.43.0


From 417f5498de992a2f7d2c1cb20e75d4f2d92e9517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 09/82] fix: imaging area of ENG_EM and ENG_CONV frames starts
 inside the detector

---
 corgidrp/detector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/corgidrp/detector.py b/corgidrp/detector.py
index 253f0bc..04fa65d 100644
--- a/corgidrp/detector.py
+++ b/corgidrp/detector.py
@@ -338,14 +338,17 @@ def imaging_area_geom(arrtype, detector_regions=None):
         detector_regions = detector_areas
     _, cols_pre, _ = unpack_geom(arrtype, 'prescan', detector_regions)
     _, cols_serial_ovr, _ = unpack_geom(arrtype, 'serial_overscan', detector_regions)
-    rows_parallel_ovr, _, _ = unpack_geom(arrtype, 'parallel_overscan', detector_regions)
+    rows_parallel_ovr, _, r0c0_parallel_ovr = unpack_geom(arrtype, 'parallel_overscan', detector_regions)
     #_, _, r0c0_image = self._unpack_geom('image')
     fluxmap_rows, _, r0c0_image = unpack_geom(arrtype, 'image', detector_regions)
 
     rows_im = detector_regions[arrtype]['frame_rows'] - rows_parallel_ovr
     cols_im = detector_regions[arrtype]['frame_cols'] - cols_pre - cols_serial_ovr
     r0c0_im = r0c0_image.copy()
-    r0c0_im[0] = r0c0_im[0] - (rows_im - fluxmap_rows)
+    # shielded rows can lie on both sides of the image rows (ENG_EM and ENG_CONV)
+    r0c0_im[0] = max(0, r0c0_im[0] - (rows_im - fluxmap_rows))
+    # the parallel overscan spans the same columns as the imaging area, shielded columns included
+    r0c0_im[1] = r0c0_parallel_ovr[1]
 
     return rows_im, cols_im, r0c0_im
 
-- 
2.43.0


From f74592ba69d90eefefca44e3d6fe42c9eb6b6577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 10/82] fix: EM gain division returns a dataset whose frames
 point to its data cubes

---
 corgidrp/l2a_to_l2b.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index d647bc1..f5beda8 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -315,7 +315,8 @@ def em_gain_division(input_dataset):
         emgain_cube[i] /= emgain
         emgain_error[i] /= emgain
 
-    dataset_list, _ = emgain_dataset.split_dataset(exthdr_keywords=['EMGAIN_C'])
+    # splitting would detach the frames of the dataset from its data cubes, so split a copy
+    dataset_list, _ = emgain_dataset.copy().split_dataset(exthdr_keywords=['EMGAIN_C'])
     if len(dataset_list) > 1:
         history_msg = "data divided by EM gain for dataset with frames with different commanded EM gains"
     else:
-- 
2.43.0


From f47efb46050eb7176f4120f2b14952cd366c8593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 11/82] fix: dark subtraction leaves the frames of its input
 attached to their data cubes

---
 corgidrp/l2a_to_l2b.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index f5beda8..8cd697c 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -58,7 +58,8 @@ def dark_subtraction(input_dataset, dark, detector_regions=None, outputdir=None)
     Returns:
         corgidrp.data.Dataset: a dark-subtracted version of the input dataset including error propagation
     """
-    _, unique_vals = input_dataset.split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
+    # split a copy, as splitting detaches the frames of a dataset from its data cubes
+    _, unique_vals = input_dataset.copy().split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
     if len(unique_vals) > 1:
         raise Exception('Input dataset should contain frames of the same exposure time, commanded EM gain, and k gain.')
 
-- 
2.43.0


From 3aca057f734817353f3b4ee264ef0d0c19df4de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 12/82] fix: building a master dark leaves its input dataset
 unchanged

---
 corgidrp/darks.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index eb1b9aa..7bdd5a0 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -189,7 +189,8 @@ def build_trad_dark(dataset, detector_params, detector_regions=None, full_frame=
     if detector_regions is None:
             detector_regions = detector_areas
 
-    _, unique_vals = dataset.split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
+    # split a copy, as splitting detaches the frames of a dataset from its data cubes
+    _, unique_vals = dataset.copy().split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
     if len(unique_vals) > 1:
         raise Exception('Input dataset should contain frames of the same exposure time, commanded EM gain, and k gain.')
     # getting telemetry rows to ignore in fit
@@ -245,9 +246,9 @@ def build_trad_dark(dataset, detector_params, detector_regions=None, full_frame=
         data = mean_frame
 
     # get from one of the noise maps and modify as needed
-    prihdr = dataset.frames[0].pri_hdr
-    exthdr = dataset.frames[0].ext_hdr
-    errhdr = dataset.frames[0].err_hdr
+    prihdr = dataset.frames[0].pri_hdr.copy()
+    exthdr = dataset.frames[0].ext_hdr.copy()
+    errhdr = dataset.frames[0].err_hdr.copy()
     exthdr['NAXIS1'] = data.shape[1]
     exthdr['NAXIS2'] = data.shape[0]
     exthdr['DATATYPE'] = 'Dark'
@@ -803,7 +804,7 @@ def build_synthesized_dark(dataset, noisemaps, detector_regions=None, full_frame
         Fd = noise_maps.FPN_map
         Dd = noise_maps.DC_map
         Cd = noise_maps.CIC_map
-        _, unique_vals = dataset.split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
+        _, unique_vals = dataset.copy().split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
         if len(unique_vals) > 1:
             raise Exception('Input dataset should contain frames of the same exposure time, commanded EM gain, and k gain.')
         try: # use measured EM gain if available TODO change hdr name if necessary
-- 
2.43.0


From e02c529fd97dd19c1219d38eefa863822329db80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 13/82] fix: photon noise of pixels with negative counts is
 zero instead of NaN

---
 corgidrp/l2a_to_l2b.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 8cd697c..dd38369 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -27,7 +27,7 @@ def add_photon_noise(input_dataset):
                 em_gain = em_gain
             else: # otherwise use commanded EM gain
                 em_gain = frame.ext_hdr.get("EMGAIN_C", 0)
-        phot_err = np.sqrt(frame.data)
+        phot_err = np.sqrt(np.maximum(frame.data, 0)) # no shot noise where there is no signal
         #add excess noise in case of em_gain
         if em_gain > 1:
             phot_err *= np.sqrt(2)           
-- 
2.43.0


From 7c17ec84f12e716881762063020cf97ba4ebd131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:25 +0000
Subject: [PATCH 14/82] fix: division by exposure time returns frames that
 point to the data cubes

---
 corgidrp/l2b_to_l3.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/corgidrp/l2b_to_l3.py b/corgidrp/l2b_to_l3.py
index e982997..a0731a0 100644
--- a/corgidrp/l2b_to_l3.py
+++ b/corgidrp/l2b_to_l3.py
@@ -89,7 +89,6 @@ def divide_by_exptime(input_dataset):
     for i in range(len(data.frames)):
         exposure_time = float(data.frames[i].ext_hdr['EXPTIME'])
 
-        data.frames[i].data = data.frames[i].data / exposure_time
         # data.frames[i].err = data.frames[i].err / exposure_time
         scale_factor = (1/exposure_time) * np.ones([data.frames[i].err.shape[1], data.frames[i].err.shape[2]])
         # print(data.frames[i].err.shape)
@@ -98,7 +97,7 @@ def divide_by_exptime(input_dataset):
         #data.frames[i].rescale_error(data.frames[i].err, 'normalized by the exposure time')
         data.frames[i].rescale_error(scale_factor, 'normalized by the exposure time')
 
-        all_data_new[i] = data.frames[i].data
+        all_data_new[i] = data.frames[i].data / exposure_time
         all_err_new[i] = data.frames[i].err
 
         data.frames[i].ext_hdr.set('BUNIT', 'photoelectrons/s')
-- 
2.43.0


From 4a49010851f01290310abcc0b260221b062f203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 15/82] fix: crop centers every frame on its own star location

---
 corgidrp/l3_to_l4.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 0305bb4..32650ea 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -322,21 +322,22 @@ def crop(input_dataset, sizexy=None, centerxy=None):
             sizexy = [sizexy]*2
         if isinstance(centerxy,float):
             centerxy = [centerxy] * 2
-        elif centerxy is None:
+        frame_centerxy = centerxy
+        if frame_centerxy is None:
             if ("STARLOCX" in exthdr.keys()) and ("STARLOCY" in exthdr.keys()):
-                centerxy = np.array([exthdr["STARLOCX"],exthdr["STARLOCY"]])
+                frame_centerxy = np.array([exthdr["STARLOCX"],exthdr["STARLOCY"]])
             else: raise ValueError('centerxy not provided but STARLOCX/Y are missing from image extension header.')
         
         # Round to centerxy to nearest half-pixel
-        centerxy = np.array(centerxy)
-        if not np.all((centerxy-0.5)%1 == 0):
-            old_centerxy = centerxy.copy()
-            centerxy = np.round(old_centerxy-0.5)+0.5
-            warnings.warn(f'Desired center {old_centerxy} is not at the intersection of 4 pixels. Centering on the nearest intersection {centerxy}')
+        frame_centerxy = np.array(frame_centerxy)
+        if not np.all((frame_centerxy-0.5)%1 == 0):
+            old_centerxy = frame_centerxy.copy()
+            frame_centerxy = np.round(old_centerxy-0.5)+0.5
+            warnings.warn(f'Desired center {old_centerxy} is not at the intersection of 4 pixels. Centering on the nearest intersection {frame_centerxy}')
             
         # Crop the data
-        start_ind = (centerxy + 0.5 - np.array(sizexy)/2).astype(int)
-        end_ind = (centerxy + 0.5 + np.array(sizexy)/2).astype(int)
+        start_ind = (frame_centerxy + 0.5 - np.array(sizexy)/2).astype(int)
+        end_ind = (frame_centerxy + 0.5 + np.array(sizexy)/2).astype(int)
         x1,y1 = start_ind
         x2,y2 = end_ind
 
@@ -394,7 +395,7 @@ def crop(input_dataset, sizexy=None, centerxy=None):
 
     output_dataset = data.Dataset(frames_out)
 
-    history_msg1 = f"""Frames cropped to new shape {list(output_dataset[0].data.shape)} on center {list(centerxy)}. Updated header kws: {", ".join(updated_hdrs)}."""
+    history_msg1 = f"""Frames cropped to new shape {list(output_dataset[0].data.shape)} on center {list(frame_centerxy)}. Updated header kws: {", ".join(updated_hdrs)}."""
     output_dataset.update_after_processing_step(history_msg1)
     
     return output_dataset
-- 
2.43.0


From 71ffaa6c913bc4813d46d25a41a141cec33c1a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 16/82] fix: crop moves the WCS reference pixel stored in the
 extension header

---
 corgidrp/l3_to_l4.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 32650ea..37108af 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -379,10 +379,11 @@ def crop(input_dataset, sizexy=None, centerxy=None):
             exthdr["STARLOCX"] -= x1
             exthdr["STARLOCY"] -= y1
             updated_hdrs.append('STARLOCX/Y')
-        if ("CRPIX1" in prihdr.keys()):
-            prihdr["CRPIX1"] -= x1
-            prihdr["CRPIX2"] -= y1
-            updated_hdrs.append('CRPIX1/2')
+        for wcshdr in (prihdr, exthdr):
+            if ("CRPIX1" in wcshdr.keys()):
+                wcshdr["CRPIX1"] -= x1
+                wcshdr["CRPIX2"] -= y1
+                updated_hdrs.append('CRPIX1/2')
         if not ("DETPIX0X" in exthdr.keys()):
             exthdr.set('DETPIX0X',0)
             exthdr.set('DETPIX0Y',0)
-- 
2.43.0


From b833fc0708d69c8651dac371150e4bb89b265547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 17/82] fix: combining subexposures leaves the frames of its
 input attached to their data cubes

---
 corgidrp/combine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/combine.py b/corgidrp/combine.py
index 2481384..db6d8f4 100644
--- a/corgidrp/combine.py
+++ b/corgidrp/combine.py
@@ -101,7 +101,7 @@ def combine_subexposures(input_dataset, num_frames_per_group=None, collapse="mea
         last_idx_in_group = num_frames_per_group*(i+1) - 1
         new_image.filename = input_dataset[last_idx_in_group].filename   
 
-        new_image._record_parent_filenames(input_dataset[num_frames_per_group*i:num_frames_per_group*(i+1)])   
+        new_image._record_parent_filenames(input_dataset.frames[num_frames_per_group*i:num_frames_per_group*(i+1)])   
         new_dataset.append(new_image)
     new_dataset = data.Dataset(new_dataset)
     new_dataset.update_after_processing_step("Combine_subexposures: combined every {0} frames by {1}".format(num_frames_per_group, collapse))
-- 
2.43.0


From e3e68f98b963335de688f745b8a62d6f6eb8473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 18/82] fix: dropping individual error layers accepts headers
 without layer names

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index d79f1a6..6290c83 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -408,7 +408,7 @@ class Image():
             num_errs = self.err.shape[0] - 1
             # delete keywords specifying the error of each individual slice
             for i in range(num_errs):
-                del self.err_hdr['Layer_{0}'.format(i + 2)]
+                self.err_hdr.remove('Layer_{0}'.format(i + 2), ignore_missing=True)
             self.err = self.err[:1] # only save the total err, preserve 3-D shape
         self.err_hdr['TRK_ERRS'] = corgidrp.track_individual_errors # specify whether we are tracing errors
 
-- 
2.43.0


From a9d0567d786c8b8a3cdf417c5b2017d721503e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 19/82] fix: autoload knows the data type written by
 NDFilterSweetSpotDataset

---
 corgidrp/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 6290c83..43a38f8 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -2564,7 +2564,8 @@ datatypes = { "Image" : Image,
               "FluxcalFactor" : FluxcalFactor,
               "FpamFsamCal" : FpamFsamCal,
               "CoreThroughputCalibration": CoreThroughputCalibration,
-              "NDFilterSweetSpot": NDFilterSweetSpotDataset}
+              "NDFilterSweetSpot": NDFilterSweetSpotDataset,
+              "NDFilterSweetSpotDataset": NDFilterSweetSpotDataset}
 
 def autoload(filepath):
     """
-- 
2.43.0


From 358fab79b1e38a527b963f9db3ed9ba29efdacee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 20/82] fix: autoload reports files of unknown type with a
 ValueError

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 43a38f8..9e06065 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -2591,7 +2591,7 @@ def autoload(filepath):
                 dtype = "Image"
             else:
                 errmsg = "Could not determine datatype for {0}. Data shape of {1} is not 2-D"
-                raise ValueError(errmsg.format(filepath, dtype))
+                raise ValueError(errmsg.format(filepath, hdulist[1].data.shape))
 
     # if we got here, we have a datatype
     data_class = datatypes[dtype]
-- 
2.43.0


From 1bc2ce495fa28b00f4b8472f6ef244879de8d01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 21/82] fix: FluxcalFactor recognizes a neutral density filter
 in FSAM when FPAM is also in the header

---
 corgidrp/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 9e06065..fb1e85f 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1378,11 +1378,11 @@ class FluxcalFactor(Image):
             name = self.ext_hdr['FPAMNAME']
             if name.startswith("ND"):
                 self.nd_filter = name
-        elif 'FSAMNAME' in self.ext_hdr:
+        if 'FSAMNAME' in self.ext_hdr:
             name = self.ext_hdr['FSAMNAME']
             if name.startswith("ND"):
                 self.nd_filter = name
-        else:
+        if 'FPAMNAME' not in self.ext_hdr and 'FSAMNAME' not in self.ext_hdr:
             raise ValueError('The FluxcalFactor calibration has no keyword FPAMNAME or FSAMNAME in the header')
         
         if 'CFAMNAME' in self.ext_hdr:
-- 
2.43.0


From 47268f246d359b85c711662cc97d94bf1b4d587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 22/82] fix: FluxcalFactor can be made from a header that
 already lists its input files

---
 corgidrp/data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index fb1e85f..caee20e 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1436,8 +1436,11 @@ class FluxcalFactor(Image):
             # use the start date for the filename by default
             self.filedir = "."
             # slight hack for old mocks not in the stardard filename format
-            self.filename = "{0}_ABF_CAL.fits".format(orig_input_filename)
-            self.filename = re.sub('_L[0-9].', '', self.filename)
+            if input_dataset is not None:
+                self.filename = "{0}_ABF_CAL.fits".format(orig_input_filename)
+                self.filename = re.sub('_L[0-9].', '', self.filename)
+            else:
+                self.filename = "ABF_CAL.fits"
 
 class FpamFsamCal(Image):
     """
-- 
2.43.0


From e999e1ebc1faba5f9ce9b16c0fd33ab8e73262ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 23/82] fix: editing a default FpamFsamCal leaves the class
 defaults alone

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index caee20e..b5822b7 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1490,7 +1490,7 @@ class FpamFsamCal(Image):
                 raise ValueError('File that was loaded was not a FpamFsamCal file.')
         else:
             if len(data_or_filepath) == 0:
-                data_or_filepath = self.default_trans
+                data_or_filepath = self.default_trans.copy()
             elif not isinstance(data_or_filepath, np.ndarray):
                 raise ValueError('Input should either be an array or a filepath string.')
             if data_or_filepath.shape != (2,2,2):
-- 
2.43.0


From 8c4fcf86b1e5954a6280077fddbadd3e0cf94759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:45 +0000
Subject: [PATCH 24/82] fix: photon counting leaves the frames of its input
 attached to their data cubes

---
 corgidrp/photon_counting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index 5f8978e..d1f265a 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -151,7 +151,8 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
     # this for loop ignores the remainder from the division above
     for i in range(num_bins):
         subset_frames = input_dataset.frames[bin_size*i:bin_size*(i+1)]
-        sub_dataset = data.Dataset(subset_frames)
+        # use copies, as a new dataset detaches the frames from the data cubes of the input dataset
+        sub_dataset = data.Dataset([frame.copy() for frame in subset_frames])
 
         test_dataset, _ = sub_dataset.copy().split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR', 'RN'])
         if len(test_dataset) > 1:
-- 
2.43.0


From ffede013f07a589536c371902dd581e13cea1198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:45 +0000
Subject: [PATCH 25/82] fix: photon-counted master darks list only the frames
 used as their inputs

---
 corgidrp/photon_counting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index d1f265a..987aa0c 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -147,7 +147,7 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
     list_new_image = []
     list_err = [] # only used for dark processing case
     list_dq = [] # only used for dark processing case
-    index_of_last_frame_used = num_bins*(len(input_dataset)//num_bins)
+    index_of_last_frame_used = num_bins*bin_size
     # this for loop ignores the remainder from the division above
     for i in range(num_bins):
         subset_frames = input_dataset.frames[bin_size*i:bin_size*(i+1)]
@@ -332,7 +332,7 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
         ext_hdr['PCTHRESH'] = thresh
         ext_hdr['NUM_FR'] = len(sub_dataset) 
         ext_hdr['HISTORY'] = "Photon-counted {0} dark frames for each master dark of the output dataset.  Number of subsets: {1}.  Total number of master darks in input dataset: {2}. Using T_factor={3} and niter={4}.".format(len(sub_dataset), num_bins, len(input_dataset), T_factor, niter)
-        pc_dark = data.Dark(np.stack(list_new_image), pri_hdr=pri_hdr, ext_hdr=ext_hdr, err=np.stack([list_err]), dq=np.stack(list_dq), err_hdr=err_hdr, input_dataset=input_dataset[:index_of_last_frame_used])
+        pc_dark = data.Dark(np.stack(list_new_image), pri_hdr=pri_hdr, ext_hdr=ext_hdr, err=np.stack([list_err]), dq=np.stack(list_dq), err_hdr=err_hdr, input_dataset=input_dataset.copy()[:index_of_last_frame_used])
         return pc_dark
 
 def corr_photon_count(nobs, nfr, t, g, mask_indices, niter=2):
-- 
2.43.0


From 723c4a72e7f7bbd417a8de1fa9016309cac623da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:45 +0000
Subject: [PATCH 26/82] fix: photon-counted master darks record width and
 height in the right order

---
 corgidrp/photon_counting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index 987aa0c..858dcce 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -327,8 +327,8 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
         return pc_ill_dataset
     else:
         ext_hdr['PC_STAT'] = 'photon-counted master dark'
-        ext_hdr['NAXIS1'] = combined_pc_mean.shape[0]
-        ext_hdr['NAXIS2'] = combined_pc_mean.shape[1]
+        ext_hdr['NAXIS1'] = combined_pc_mean.shape[1]
+        ext_hdr['NAXIS2'] = combined_pc_mean.shape[0]
         ext_hdr['PCTHRESH'] = thresh
         ext_hdr['NUM_FR'] = len(sub_dataset) 
         ext_hdr['HISTORY'] = "Photon-counted {0} dark frames for each master dark of the output dataset.  Number of subsets: {1}.  Total number of master darks in input dataset: {2}. Using T_factor={3} and niter={4}.".format(len(sub_dataset), num_bins, len(input_dataset), T_factor, niter)
-- 
2.43.0


From d3f95743df259898b92ff2455cee805ec892c28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 27/82] fix: the calibration database reads exposure times back
 exactly, so that darks match their frames

---
 corgidrp/caldb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/caldb.py b/corgidrp/caldb.py
index f8e4426..c686bd5 100644
--- a/corgidrp/caldb.py
+++ b/corgidrp/caldb.py
@@ -85,7 +85,7 @@ class CalDB:
         """
         Load/update db from filepath
         """
-        self._db = pd.read_csv(self.filepath, dtype=column_dtypes)
+        self._db = pd.read_csv(self.filepath, dtype=column_dtypes, float_precision="round_trip")
 
     def save(self):
         """
-- 
2.43.0


From a41e0ae7d7acb261f805c24c92cbaf50008f6c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 28/82] fix: generating a recipe leaves the template unchanged

---
 corgidrp/walker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 4204983..44fc9e0 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -1,3 +1,4 @@
+import copy
 import os
 import json
 import astropy.time as time
@@ -148,7 +149,7 @@ def autogen_recipe(filelist, outputdir, template=None):
     recipe_list = []
     for template in recipe_template_list:
         # create the personalized recipe
-        recipe = template.copy()
+        recipe = copy.deepcopy(template)
         recipe["template"] = False
 
         for filename in filelist:
-- 
2.43.0


From c2a87c743737a68ad72a526af3653334b3c77edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 29/82] fix: recipes may leave a calibration of a step empty

---
 corgidrp/walker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 44fc9e0..2d84d7e 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -203,6 +203,9 @@ def _fill_in_calib_files(step, this_caldb, ref_frame):
     for calib in step["calibs"]:
         # order matters, so only one calibration file per dictionary
 
+        if step["calibs"][calib] is None:
+            continue # explicitly left out, or found to be missing before
+
         if "AUTOMATIC" in step["calibs"][calib].upper():
             calib_dtype = data.datatypes[calib]
 
-- 
2.43.0


From e3e9e39810dcbdc0a2582b5abec0131be093624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 30/82] fix: steps whose calibration is found missing just
 before they run are skipped when so configured

---
 corgidrp/walker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 2d84d7e..b6f93f3 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -425,6 +425,9 @@ def run_recipe(recipe, save_recipe_file=True):
                     for frame in list_of_frames:
                         frame.ext_hdr["RECIPE"] = json.dumps(recipe)
 
+                    # the step may turn out to lack a calibration only now
+                    if "skip" in step and step["skip"]:
+                        continue
 
                 # load the calibration files in from disk
                 for calib in step["calibs"]:
-- 
2.43.0


From 99cfa4c875b76cdadb263ec3bd69c484f93b24e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 31/82] fix: master darks and noise maps list the inputs of all
 their frames

---
 corgidrp/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index b5822b7..6b36003 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -650,7 +650,7 @@ class Dark(Image):
             if 'PC_STAT' not in ext_hdr:
                 self.ext_hdr['PC_STAT'] = 'analog master dark'
             # log all the data that went into making this calibration file
-            if 'DRPNFILE' not in ext_hdr.keys() and input_dataset is not None:
+            if input_dataset is not None:
                 self._record_parent_filenames(input_dataset)
 
             # add to history
@@ -1046,7 +1046,7 @@ class DetectorNoiseMaps(Image):
             self.ext_hdr['B_0_UNIT'] = 'DN' # err unit is also in DN
 
             # log all the data that went into making this calibration file
-            if 'DRPNFILE' not in ext_hdr.keys():
+            if input_dataset is not None:
                 self._record_parent_filenames(input_dataset)
             # add to history
             self.ext_hdr['HISTORY'] = "DetectorNoiseMaps calibration file created"
-- 
2.43.0


From b0957f7b10433ac1a9ffaf184a8bfd9db31af462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 32/82] fix: BadPixelMap can be made from a header that already
 lists its input files

---
 corgidrp/data.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 6b36003..37c6444 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -970,16 +970,21 @@ class BadPixelMap(Image):
             self.ext_hdr['DATATYPE'] = 'BadPixelMap'
 
             # log all the data that went into making this bad pixel map
-            self._record_parent_filenames(input_dataset)
+            if input_dataset is not None:
+                self._record_parent_filenames(input_dataset)
+                last_filename = input_dataset[-1].filename
+            else:
+                # the header already lists the input files
+                last_filename = self.ext_hdr['FILE{0}'.format(self.ext_hdr['DRPNFILE'] - 1)]
 
             # add to history
             self.ext_hdr['HISTORY'] = "Bad Pixel map created"
 
             # check whether we're making the bpmap from a flat only, or from L1/2 files. 
-            if "_FLT_CAL" in input_dataset[-1].filename:
-                self.filename = input_dataset[-1].filename.replace("_FLT_CAL", "_BPM_CAL")
+            if "_FLT_CAL" in last_filename:
+                self.filename = last_filename.replace("_FLT_CAL", "_BPM_CAL")
             else:
-                self.filename = re.sub('_L[0-9].', '_BPM_CAL', input_dataset[-1].filename)
+                self.filename = re.sub('_L[0-9].', '_BPM_CAL', last_filename)
             
             # if no input_dataset is given, do we want to set the filename manually using 
             # header values?            
-- 
2.43.0


From b425c886f583a9cb4c19bba1036612893259bd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 33/82] fix: synthesized darks keep the input list of their
 noise maps

---
 corgidrp/darks.py           | 2 ++
 corgidrp/data.py            | 2 +-
 corgidrp/photon_counting.py | 2 ++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index 7bdd5a0..923c6e5 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -252,6 +252,8 @@ def build_trad_dark(dataset, detector_params, detector_regions=None, full_frame=
     exthdr['NAXIS1'] = data.shape[1]
     exthdr['NAXIS2'] = data.shape[0]
     exthdr['DATATYPE'] = 'Dark'
+    # the list of input files of the first frame is not that of the master dark
+    exthdr.remove('DRPNFILE', ignore_missing=True)
 
     master_dark = Dark(data, prihdr, exthdr, dataset, err, dq, errhdr)
     master_dark.ext_hdr['BUNIT'] = 'Detected Electrons'
diff --git a/corgidrp/data.py b/corgidrp/data.py
index 37c6444..0d715ea 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -650,7 +650,7 @@ class Dark(Image):
             if 'PC_STAT' not in ext_hdr:
                 self.ext_hdr['PC_STAT'] = 'analog master dark'
             # log all the data that went into making this calibration file
-            if input_dataset is not None:
+            if 'DRPNFILE' not in ext_hdr.keys() and input_dataset is not None:
                 self._record_parent_filenames(input_dataset)
 
             # add to history
diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index 858dcce..4bd5d80 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -327,6 +327,8 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
         return pc_ill_dataset
     else:
         ext_hdr['PC_STAT'] = 'photon-counted master dark'
+        # the list of input files of the last frame is not that of the master dark
+        ext_hdr.remove('DRPNFILE', ignore_missing=True)
         ext_hdr['NAXIS1'] = combined_pc_mean.shape[1]
         ext_hdr['NAXIS2'] = combined_pc_mean.shape[0]
         ext_hdr['PCTHRESH'] = thresh
-- 
2.43.0


From b4a4c07948f7e339aa849f1a4d7cdd9f0b7d62b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 34/82] fix: interpolated core throughput at a measured
 location is assigned to the target at that location

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 0d715ea..eaac80e 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1842,7 +1842,7 @@ class CoreThroughputCalibration(Image):
             for idx_x in idx_x_arr:
                 # If and only if the same index is in both, it's the same location
                 if idx_x in idx_y_arr:
-                    interpolated_values[idx_x] = core_throughput[idx_x]
+                    interpolated_values[idx] = core_throughput[idx_x]
             
         # Raise ValueError if all CT are NaN
         if np.all(np.isnan(interpolated_values)):
-- 
2.43.0


From f77b4cf513d856cde0e41c5650aacaf2cbcf596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 35/82] fix: the core throughput map is saved to the file asked
 for

---
 corgidrp/corethroughput.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/corethroughput.py b/corgidrp/corethroughput.py
index 1f33ce9..05fe131 100644
--- a/corgidrp/corethroughput.py
+++ b/corgidrp/corethroughput.py
@@ -535,7 +535,7 @@ def CreateCTMap(
         if filepath == None:
             # Choose a default location and filename
             filepath = os.path.join(corgidrp.default_cal_dir, 'ct_map.csv')
-            np.savetxt(filepath, ct_map, delimiter=',', header='x, y, ct')
-            print(f'CT map saved in {filepath:s}')
+        np.savetxt(filepath, ct_map, delimiter=',', header='x, y, ct')
+        print(f'CT map saved in {filepath:s}')
     
     return ct_map
-- 
2.43.0


From d87f6f8a6f677c46808ef4b3546eeae652dc9b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 36/82] fix: astrometric source finding and north angle work on
 images that are not square

---
 corgidrp/astrom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 36e9d18..8bbe944 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -396,7 +396,7 @@ def find_source_locations(image_data, threshold=10, fwhm=7, mask_rad=1):
     # pad the image to fit stars along the edge
 
     pad = 25
-    full_frame = np.zeros([image_shape[1]+(pad*2), image_shape[0]+(pad*2)])
+    full_frame = np.zeros([image_shape[0]+(pad*2), image_shape[1]+(pad*2)])
     full_frame[pad:-pad, pad:-pad] = image_data
     fit_gauss_image = np.copy(full_frame)
 
@@ -769,7 +769,7 @@ def compute_platescale_and_northangle(image, source_info, center_coord, center_r
     # find the pixel position angles
     pa_pixel = np.empty(len(sub_guesses))
     for i, (x, y) in enumerate(zip(xs, ys)):
-        pa = angle_between(((np.shape(image)[0]-1)//2, (np.shape(image)[1]-1)//2), (x,y))
+        pa = angle_between(((np.shape(image)[1]-1)//2, (np.shape(image)[0]-1)//2), (x,y))
         pa_pixel[i] = pa
 
     # find the difference between the measured and true positon angles
-- 
2.43.0


From 7d946a594fb61af2c6321fbdc294e7e1ffb3f227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 37/82] fix: the boresight calibration leaves the headers of
 its input as they are

---
 corgidrp/astrom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 8bbe944..8d0c762 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1080,7 +1080,7 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
                 file_name = input_dataset[count].filename
 
             comb = np.mean(sub_array, axis=0)
-            im = corgidrp.data.Image(comb, pri_hdr=input_dataset[count - frames_to_combine].pri_hdr, ext_hdr=input_dataset[0].ext_hdr)
+            im = corgidrp.data.Image(comb, pri_hdr=input_dataset[count - frames_to_combine].pri_hdr.copy(), ext_hdr=input_dataset[0].ext_hdr.copy())
             im.filename = file_name
             image_objects.append(im)
         
@@ -1150,7 +1150,7 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     astromcal_data = np.concatenate((np.array([corr_pos_ra, corr_pos_dec, avg_platescale_x, avg_platescale_y, avg_northangle, avg_ra, avg_dec]), np.array(distortion_coeffs), np.array([order])), axis=0)
 
     astroms_dataset = corgidrp.data.Dataset(astroms)
-    avg_cal = corgidrp.data.AstrometricCalibration(astromcal_data, pri_hdr=input_dataset[0].pri_hdr, ext_hdr=input_dataset[0].ext_hdr, input_dataset=astroms_dataset)
+    avg_cal = corgidrp.data.AstrometricCalibration(astromcal_data, pri_hdr=input_dataset[0].pri_hdr.copy(), ext_hdr=input_dataset[0].ext_hdr.copy(), input_dataset=astroms_dataset)
     # add the corrected RA/DEC for each frame to the ext_hdr
     for i, corr in enumerate(corrected_positions_boresight):
         name = 'F'+str(i)+'POS'
-- 
2.43.0


From e569cf72d0c8c5f6684e6e1fa91db2e50b47ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 38/82] fix: KLIP throughputs belong to the separation they are
 listed with, also if unsorted or without measurement

---
 corgidrp/klip_fm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/klip_fm.py b/corgidrp/klip_fm.py
index 9a77ad8..e5c4111 100644
--- a/corgidrp/klip_fm.py
+++ b/corgidrp/klip_fm.py
@@ -499,9 +499,9 @@ def meas_klip_thrupt(sci_dataset_in,ref_dataset_in, # pre-psf-subtracted dataset
 
         mean_thrupts = []
         mean_outfwhms = []
-        # TODO: If no measurements available for a given sep
-        # show warning and add np.nan 
-        for sep in np.unique(seps_arr):
+        # One value per requested separation, in the requested order (NaN if no
+        # measurements are available for a given sep)
+        for sep in seps:
             this_sep_thrupts = np.where(seps_arr==sep,this_klmode_thrupts,np.nan)
             mean_thrupt = np.nanmedian(this_sep_thrupts)
             mean_thrupts.append(mean_thrupt)
-- 
2.43.0


From 18ab2a805f6ddbe8d83fff0065b7f9ffa596cc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 39/82] fix: flux ratio noise curves use the separations and
 halfwidth of each frame

---
 corgidrp/l4_to_tda.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 913e9f5..ea2dacd 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -207,7 +207,10 @@ def compute_flux_ratio_noise(input_dataset, NDcalibration, unocculted_star_datas
     output_dataset = input_dataset.copy()
     if len(input_dataset) != len(unocculted_star_dataset):
         raise ValueError('The number of frames in input_dataset and unocculted_star_dataset must be the same.')
+    input_separations, input_halfwidth = requested_separations, halfwidth
     for i, frame in enumerate(output_dataset.frames):
+        # defaults are those of each frame
+        requested_separations, halfwidth = input_separations, input_halfwidth
         pixscale_mas = frame.ext_hdr['PLTSCALE']  
         klip_tp = frame.hdu_list['KL_THRU'].data[1:,:,0]
         core_tp = frame.hdu_list['CT_THRU'].data[1]
-- 
2.43.0


From 5284da5122b8ee448c1767ed32cbd1859d7e58a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 40/82] fix: the fit of the unocculted star starts at its row
 and column, not at the swapped position

---
 corgidrp/l4_to_tda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index ea2dacd..3a62651 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -279,7 +279,7 @@ def compute_flux_ratio_noise(input_dataset, NDcalibration, unocculted_star_datas
         median_col = closest_indices[1][highest_density_index]
         fwhm_guess = 2*np.sqrt((median_row-guess_row)**2 + (median_col-guess_col)**2)
 
-        psf_phot = fit_2dgaussian(data, xypos=pos, fit_shape=fit_shape, fwhm=fwhm_guess, fix_fwhm=False,
+        psf_phot = fit_2dgaussian(data, xypos=(guess_col, guess_row), fit_shape=fit_shape, fwhm=fwhm_guess, fix_fwhm=False,
                                 mask=mask, error=None)
         star_xs = psf_phot.results['x_fit']
         star_ys = psf_phot.results['y_fit']
-- 
2.43.0


From 19254d9a5ebcc9c0262fa6b9e5399db952ac873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 41/82] fix: flux calibration leaves the image it is made from
 as it is

---
 corgidrp/fluxcal.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/corgidrp/fluxcal.py b/corgidrp/fluxcal.py
index 8eaea3e..abc0a99 100644
--- a/corgidrp/fluxcal.py
+++ b/corgidrp/fluxcal.py
@@ -449,10 +449,10 @@ def calibrate_fluxcal_aper(dataset_or_image, flux_or_irr = 'flux', phot_kwargs=N
             flux calibration factor in (TO DO: what units should this be in)
     """
     if isinstance(dataset_or_image, corgidrp.data.Dataset):
-        image = dataset_or_image[0]
+        image = dataset_or_image[0].copy()
         dataset = dataset_or_image
     else:
-        image = dataset_or_image
+        image = dataset_or_image.copy()
         dataset = corgidrp.data.Dataset([image])
     
     if phot_kwargs is None:
@@ -505,6 +505,8 @@ def calibrate_fluxcal_aper(dataset_or_image, flux_or_irr = 'flux', phot_kwargs=N
         input_dataset=dataset
     )
 
+    fluxcal_obj.err_hdr['BUNIT'] = image.err_hdr['BUNIT']
+
     # If background subtraction was performed, set the LOCBACK keyword.
     if phot_kwargs.get('background_sub', False):
         # Here, "back" is the third value returned from phot_by_gauss2d_fit.
@@ -552,10 +554,10 @@ def calibrate_fluxcal_gauss2d(dataset_or_image, flux_or_irr = 'flux', phot_kwarg
             flux calibration factor in (TO DO: what units should this be in)
     """
     if isinstance(dataset_or_image, corgidrp.data.Dataset):
-        image = dataset_or_image[0]
+        image = dataset_or_image[0].copy()
         dataset = dataset_or_image
     else:
-        image = dataset_or_image
+        image = dataset_or_image.copy()
         dataset = corgidrp.data.Dataset([image])
     
     if phot_kwargs is None:
@@ -603,6 +605,8 @@ def calibrate_fluxcal_gauss2d(dataset_or_image, flux_or_irr = 'flux', phot_kwarg
         input_dataset=dataset
     )
     
+    fluxcal_obj.err_hdr['BUNIT'] = image.err_hdr['BUNIT']
+
     # If background subtraction was performed, set the LOCBACK keyword.
     if phot_kwargs.get('background_sub', False):
         # Here, "back" is the third value returned from phot_by_gauss2d_fit.
-- 
2.43.0


From e4812b278adf50296ad5beb6270d02da0da40ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 42/82] fix: photometry by Gaussian fit works on images with an
 odd number of rows

---
 corgidrp/fluxcal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/fluxcal.py b/corgidrp/fluxcal.py
index abc0a99..04de9ec 100644
--- a/corgidrp/fluxcal.py
+++ b/corgidrp/fluxcal.py
@@ -396,7 +396,8 @@ def phot_by_gauss2d_fit(image, fwhm, fit_shape=None, background_sub=False, r_in=
     err[err == 0] = np.finfo(np.float32).eps
 
     if fit_shape is None:
-        fit_shape = image.data.shape[0] - 1
+        # must be odd
+        fit_shape = image.data.shape[0] - 1 + image.data.shape[0] % 2
 
     psf_phot = fit_2dgaussian(dat, xypos=pos, fwhm=fwhm, fit_shape=fit_shape,
                               mask=image.dq.astype(bool), error=err)
-- 
2.43.0


From 02e43dad27e940952037013a87d7ffad2ef255bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 43/82] fix: the photometric zero point is one number, made
 from the counts only

---
 corgidrp/l4_to_tda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 3a62651..3d5a71d 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -534,7 +534,7 @@ def calculate_zero_point(image, star_name, encircled_radius, phot_kwargs=None):
     app_mag = mag_dataset[0].ext_hdr["APP_MAG"]
 
     # Compute zero point using real measured photons
-    ap_sum = fluxcal.aper_phot(image, encircled_radius, **phot_kwargs, centering_initial_guess=None)
+    ap_sum, *_ = fluxcal.aper_phot(image, encircled_radius, **phot_kwargs, centering_initial_guess=None)
     zp = app_mag + 2.5 * np.log10(ap_sum)
 
     return zp
\ No newline at end of file
-- 
2.43.0


From 916f3440d3dc00c14fe02220f3b0a8ec7e5f2af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 44/82] fix: source detection ends if a signal-to-noise equals
 the threshold

---
 corgidrp/l4_to_tda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 3d5a71d..5c51323 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -474,7 +474,7 @@ def find_source(input_image, psf=None, fwhm=2.8, nsigma_threshold=5.0,
     sn_source, xy_source = [], []
        
     # Iteratively detect sources above the SNR threshold
-    while np.nanmax(image_snmap) >= nsigma_threshold:
+    while np.nanmax(image_snmap) > nsigma_threshold:
 
         sn = np.nanmax(image_snmap)
         xy = np.unravel_index(np.nanargmax(image_snmap), image_snmap.shape)
-- 
2.43.0


From 6173c47a3ce9140d622db24e39c601df826e5a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 45/82] fix: source detection centres its aperture on PSFs of
 any size

---
 corgidrp/l4_to_tda.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 5c51323..feca610 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -461,6 +461,10 @@ def find_source(input_image, psf=None, fwhm=2.8, nsigma_threshold=5.0,
     if psf is None:
         sigma = fwhm / (2.0 * np.sqrt(2.0 * np.log(2))) # Convert FWHM to sigma
         psf = np.exp(-(x**2 + y**2) / (2.0 * sigma**2))
+    else:
+        # coordinates of the pixels of the given PSF
+        y, x = np.indices(psf.shape)
+        y -= psf.shape[0] // 2 ; x -= psf.shape[1] // 2
 
     # Generate a binary mask for PSF convolution   
     distance_map = np.sqrt(x**2 + y**2)  
-- 
2.43.0


From 58b110ce143c7da334870b90a06412982db26001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 46/82] fix: sources near the border of the image are
 subtracted too

---
 corgidrp/find_source.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/corgidrp/find_source.py b/corgidrp/find_source.py
index b3f7020..5e31f2f 100644
--- a/corgidrp/find_source.py
+++ b/corgidrp/find_source.py
@@ -62,12 +62,13 @@ def psf_scalesub(image, xy, psf, fwhm):
 
     # Scale PSF to match local flux and subtract it
     psf_window = psf.shape[0] // 2
-    psf_scaled = psf * np.nanmedian(image[
-        xy[0]-psf_window:xy[0]+psf_window+1,
-        xy[1]-psf_window:xy[1]+psf_window+1] / psf)
+    # part of the PSF window inside the image
+    y0, x0 = xy[0]-psf_window, xy[1]-psf_window
+    window = (slice(max(y0, 0), xy[0]+psf_window+1), slice(max(x0, 0), xy[1]+psf_window+1))
+    psf_part = (slice(max(-y0, 0), image.shape[0]-y0), slice(max(-x0, 0), image.shape[1]-x0))
+    psf_scaled = psf * np.nanmedian(image[window] / psf[psf_part])
     psf_scaled[idx_masked] = np.nan # Apply masking
     
-    image[xy[0]-psf_window:xy[0]+psf_window+1,
-          xy[1]-psf_window:xy[1]+psf_window+1] -= psf_scaled
+    image[window] -= psf_scaled[psf_part]
     
     return image
\ No newline at end of file
-- 
2.43.0


From 945022910ad8bc8b92f7c5d174756d27299ba97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 47/82] fix: a frame extracted from a cube keeps its throughput
 tables and its own headers

---
 corgidrp/measure_companions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/corgidrp/measure_companions.py b/corgidrp/measure_companions.py
index 08384d9..6077d23 100644
--- a/corgidrp/measure_companions.py
+++ b/corgidrp/measure_companions.py
@@ -513,10 +513,12 @@ def extract_single_frame(image, frame_index=0):
     else:
         err_frame = None
     dq_frame = image.dq[frame_index, :, :] if image.dq is not None else None
-    new_image = Image(data_frame, pri_hdr=image.pri_hdr, ext_hdr=image.ext_hdr, err=err_frame, dq=dq_frame)
+    new_image = Image(data_frame, pri_hdr=image.pri_hdr.copy(), ext_hdr=image.ext_hdr.copy(), err=err_frame, dq=dq_frame)
     # Preserve specific header units if present.
     if hasattr(image, 'hdu_list'):
-        new_image.hdu_list = {key: image.hdu_list[key] for key in image.hdu_list if key in ['KL_THRU', 'CT_THRU']}
+        for hdu in image.hdu_list:
+            if hdu.name in ['KL_THRU', 'CT_THRU']:
+                new_image.add_extension_hdu(hdu.name, data=hdu.data, header=hdu.header)
     return new_image
 
 
-- 
2.43.0


From 4ac5b0d47c47a0d292b09444f8e573a4b9045de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 48/82] fix: the neutral density calibration leaves the headers
 of its input as they are

---
 corgidrp/nd_filter_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 0a97c93..0fbf55e 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -329,8 +329,8 @@ def create_nd_sweet_spot_dataset(aggregated_sweet_spot_data, common_metadata, od
     final_sweet_spot_data = aggregated_sweet_spot_data.copy()
 
     # Build the NDFilterSweetSpotDataset, use info from last/ most recent
-    pri_hdr = input_dataset[-1].pri_hdr
-    ext_hdr = input_dataset[-1].ext_hdr
+    pri_hdr = input_dataset[-1].pri_hdr.copy()
+    ext_hdr = input_dataset[-1].ext_hdr.copy()
 
     # keeping the common metadata because if you do provide dim stars as part of the dataset
     # and grab the last header you might get the FPAM info of a frame with no ND filter in.
-- 
2.43.0


From 223b2284045edaf71d2f6e377b3858d941488350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 49/82] fix: the neutral density calibration needs no dim stars
 if a flux factor is given

---
 corgidrp/nd_filter_calibration.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 0fbf55e..9c806b6 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -452,8 +452,6 @@ def create_nd_filter_cal(stars_dataset,
             dim_stars_dataset.extend(records)
 
     bright_stars_dataset = Dataset(bright_stars_dataset)
-    dim_stars_dataset = Dataset(dim_stars_dataset)
-
 
     # 2. If a fluxcal factor was provided, use that for the dim stars
     if fluxcal_factor is not None:
@@ -461,6 +459,7 @@ def create_nd_filter_cal(stars_dataset,
     else:
         # Otherwise, compute the average calibration factor from dim
         # star frames
+        dim_stars_dataset = Dataset(dim_stars_dataset)
         cal_factor = compute_avg_calibration_factor(dim_stars_dataset,
                                                     phot_method,
                                                     flux_or_irr,
-- 
2.43.0


From cc2d9fca6f10f68762672887780677d4a0a0d13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 50/82] fix: a large density scatter of any target flags the
 neutral density calibration

---
 corgidrp/nd_filter_calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 9c806b6..73683ca 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -470,6 +470,7 @@ def create_nd_filter_cal(stars_dataset,
     flux_results = {}
     aggregated_data_list = []
     common_metadata = {}
+    od_var_flag = False
 
     for target, files in grouped_files.items():
         if not files:
@@ -480,7 +481,7 @@ def create_nd_filter_cal(stars_dataset,
                                           phot_kwargs)
         flux_results[target] = star_data
 
-        od_var_flag = star_data['flag']
+        od_var_flag = bool(od_var_flag or star_data['flag'])
 
         # Convert to Nx3 array [OD, x, y]
         target_sweet_spot = np.column_stack((
-- 
2.43.0


From aa37e11585491a9a9d73c9c643d8254766983007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:20 +0000
Subject: [PATCH 51/82] fix: northup rotates and keeps all layers of the error

---
 corgidrp/l3_to_l4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 37108af..19fd7f2 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -714,7 +714,7 @@ def northup(input_dataset,use_wcs=True,rot_center='im_center'):
 
         ## HDU ERR ##
         err_data = processed_data.err
-        err_derot = np.expand_dims(rotate(err_data[0],roll_angle,(xcen,ycen)), axis=0) # err data shape is 1x1024x1024
+        err_derot = np.array([rotate(err_layer,roll_angle,(xcen,ycen)) for err_layer in err_data]) # err data shape is (n_layers)x1024x1024
         new_all_err.append(err_derot)
         #############
 
-- 
2.43.0


From b222cee9f287a690238479909f44bf8de8b9a872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 52/82] fix: northup rotates the data quality flags about the
 same point as the data

---
 corgidrp/l3_to_l4.py | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 19fd7f2..6682f3c 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -10,8 +10,6 @@ from corgidrp import star_center
 import corgidrp
 from corgidrp.klip_fm import meas_klip_thrupt
 from corgidrp.corethroughput import get_1d_ct
-from scipy.ndimage import rotate as rotate_scipy # to avoid duplicated name
-from scipy.ndimage import shift
 import warnings
 import numpy as np
 import pyklip.rdi
@@ -719,27 +717,15 @@ def northup(input_dataset,use_wcs=True,rot_center='im_center'):
         #############
 
         ## HDU DQ ##
-        # all DQ pixels must have integers, use scipy.ndimage.rotate with order=0 instead of klip.rotate (rotating the other way)
+        # all DQ pixels must have integers, so take the nearest pixel at the coordinates that pyklip.rotate samples
         dq_data = processed_data.dq
-        if xcen != xlen/2 or ycen != ylen/2:
-                # padding, shifting (rot center to image center), rotating, re-shift (image center to rot center), and cropping
-                # calculate shift values
-                xshift = xcen-xlen/2; yshift = ycen-ylen/2
-
-                # pad and shift
-                pad_x = int(np.ceil(abs(xshift))); pad_y = int(np.ceil(abs(yshift)))
-                dq_data_padded = np.pad(dq_data,pad_width=((pad_y, pad_y), (pad_x, pad_x)),mode='constant',constant_values=0)
-                dq_data_padded_shifted = shift(dq_data_padded,(-yshift,-xshift),order=0,mode='constant',cval=0)
-
-                # define slices for cropping
-                crop_x = slice(pad_x,pad_x+xlen); crop_y = slice(pad_y,pad_y+ylen)
-
-                # rotate (invserse direction to pyklip.rotate), re-shift, and crop
-                dq_derot = shift(rotate_scipy(dq_data_padded_shifted, -roll_angle, order=0, mode='constant', reshape=False, cval=0),\
-                 (yshift,xshift),order=0,mode='constant',cval=0)[crop_y,crop_x]
-        else:
-                # simply rotate 
-                dq_derot = rotate_scipy(dq_data, -roll_angle, order=0, mode='constant', reshape=False, cval=0)
+        angle_rad = np.radians(roll_angle)
+        x, y = np.meshgrid(np.arange(xlen) - xcen, np.arange(ylen) - ycen)
+        xp = np.rint(x*np.cos(angle_rad) + y*np.sin(angle_rad) + xcen).astype(int)
+        yp = np.rint(-x*np.sin(angle_rad) + y*np.cos(angle_rad) + ycen).astype(int)
+        inside = (xp >= 0) & (xp < xlen) & (yp >= 0) & (yp < ylen)
+        dq_derot = np.zeros_like(dq_data)
+        dq_derot[inside] = dq_data[yp[inside], xp[inside]]
 
         new_all_dq.append(dq_derot)
         ############
-- 
2.43.0


From eb28e92ee5612c879b9fc20a6453513f1e34d657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 53/82] fix: northup turns the WCS reference pixel and the star
 location with the image

---
 corgidrp/l3_to_l4.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 6682f3c..e8ea9e2 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -708,6 +708,15 @@ def northup(input_dataset,use_wcs=True,rot_center='im_center'):
             sci_hd['CD1_2'] = astr_hdr.wcs.cd[0,1]
             sci_hd['CD2_1'] = astr_hdr.wcs.cd[1,0]
             sci_hd['CD2_2'] = astr_hdr.wcs.cd[1,1]
+
+        # positions recorded in the header turn with the image (CRPIX counts pixels from 1)
+        angle_rad = np.radians(roll_angle)
+        for xkey, ykey, first_pix in (('CRPIX1', 'CRPIX2', 1), ('STARLOCX', 'STARLOCY', 0)):
+            if xkey not in sci_hd or (xkey == 'CRPIX1' and not use_wcs):
+                continue
+            xoff, yoff = sci_hd[xkey]-first_pix-xcen, sci_hd[ykey]-first_pix-ycen
+            sci_hd[xkey] = xoff*np.cos(angle_rad) - yoff*np.sin(angle_rad) + xcen + first_pix
+            sci_hd[ykey] = xoff*np.sin(angle_rad) + yoff*np.cos(angle_rad) + ycen + first_pix
         #############
 
         ## HDU ERR ##
-- 
2.43.0


From 487d7dad680cb39d7b56f206381d4fd85dcd719c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 54/82] fix: distortion correction works on images that are not
 square

---
 corgidrp/l3_to_l4.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index e8ea9e2..59389cc 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -38,14 +38,10 @@ def distortion_correction(input_dataset, astrom_calibration):
     for undistorted_data in undistorted_dataset:
 
         im_data = undistorted_data.data
-        imgsizeX, imgsizeY = im_data.shape
-
-        # set image size to the largest axis if not square imagea
-        if (imgsizeX >= imgsizeY): imgsize = imgsizeX
-        else: imgsize = imgsizeY
+        imgsizeY, imgsizeX = im_data.shape
 
         yorig, xorig = np.indices(im_data.shape)
-        y0, x0 = imgsize//2, imgsize//2
+        y0, x0 = imgsizeY//2, imgsizeX//2
         yorig -= y0
         xorig -= x0
 
@@ -75,7 +71,7 @@ def distortion_correction(input_dataset, astrom_calibration):
         distmapY = y_corr - yorig
 
         # apply the distortion grid to the image indeces and map the image
-        gridx, gridy = np.meshgrid(np.arange(imgsize), np.arange(imgsize))
+        gridx, gridy = np.meshgrid(np.arange(imgsizeX), np.arange(imgsizeY))
         gridx = gridx - distmapX
         gridy = gridy - distmapY
 
-- 
2.43.0


From a2a4a7e8b0b6aa07b0cea179f3452e4a5743213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 55/82] fix: the on-sky flat field leaves the raster images it
 is made from as they are

---
 corgidrp/flat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/flat.py b/corgidrp/flat.py
index 4cf5dbd..1895445 100644
--- a/corgidrp/flat.py
+++ b/corgidrp/flat.py
@@ -229,9 +229,9 @@ def create_onsky_flatfield(dataset, planet=None,band=None,up_radius=55,im_size=N
 
     smooth_images=[]; raster_images_cent=[]; cent=[]; act_cents=[]; frames=[];
     for j in range(len(dataset)):
-        planet_image=dataset[j].data
-        prihdr=dataset[j].pri_hdr
-        exthdr=dataset[j].ext_hdr
+        planet_image=dataset[j].data.copy() # the sky is subtracted below, leave the input as it is
+        prihdr=dataset[j].pri_hdr.copy()
+        exthdr=dataset[j].ext_hdr.copy()
         image_size=np.shape(planet_image)
         centroid = centr.centroid_com(planet_image)
         centroid[np.isnan(centroid)]=0
-- 
2.43.0


From e8fef6324e768c02656608729207afd04b5cd804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 56/82] fix: one EM gain is recorded per set of non-linearity
 frames, also if it was measured

---
 corgidrp/calibrate_nonlin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/calibrate_nonlin.py b/corgidrp/calibrate_nonlin.py
index 3abe5d0..f135584 100644
--- a/corgidrp/calibrate_nonlin.py
+++ b/corgidrp/calibrate_nonlin.py
@@ -906,7 +906,7 @@ def nonlin_dataset_2_stack(dataset):
                             gains.append(frame.ext_hdr['EMGAIN_A'])
                         else: # use commanded gain otherwise
                             gains.append(frame.ext_hdr['EMGAIN_C'])
-                        record_gain = False
+                    record_gain = False
             else:
                 raise Exception('OBSNAME can only be MNFRAME or NONLIN in non-linearity')
         
-- 
2.43.0


From ab19f6b4af7f53b72a5424b0ca19b17627560b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 57/82] fix: one EM gain is recorded per set of k-gain frames,
 also if it was measured

---
 corgidrp/calibrate_kgain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/calibrate_kgain.py b/corgidrp/calibrate_kgain.py
index 8c4c99b..f609e16 100644
--- a/corgidrp/calibrate_kgain.py
+++ b/corgidrp/calibrate_kgain.py
@@ -876,7 +876,7 @@ def kgain_dataset_2_list(dataset):
                             gains.append(frame.ext_hdr['EMGAIN_A'])
                         else: # use commanded gain otherwise
                             gains.append(frame.ext_hdr['EMGAIN_C'])
-                        record_gain = False
+                    record_gain = False
                 
         # Calibration data may have different subsets
         if len(sub_stack) != 0:
-- 
2.43.0


From f04e995a0ddfcbc3b1adc810df70d0e46dcd182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 58/82] fix: mean frames do not count as calibration frames of
 the same exposure time in k-gain calibration

---
 corgidrp/calibrate_kgain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/calibrate_kgain.py b/corgidrp/calibrate_kgain.py
index f609e16..5555ddb 100644
--- a/corgidrp/calibrate_kgain.py
+++ b/corgidrp/calibrate_kgain.py
@@ -851,7 +851,7 @@ def kgain_dataset_2_list(dataset):
                 mean_frame_stack.append(frame.data)
             else:
                 if record_len:
-                    len_sstack.append(len(data_set.frames))
+                    len_sstack.append(sum(1 for fr in data_set.frames if fr.pri_hdr['OBSNAME'] != 'MNFRAME'))
                     record_len = False
                 sub_stack.append(frame.data)
                 exp_time = frame.ext_hdr['EXPTIME']
-- 
2.43.0


From 4f6b4ba5a2a937c3ae16afb3914d985b27d8f0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 59/82] fix: the trap calibration leaves the headers of its
 input as they are

---
 corgidrp/pump_trap_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/pump_trap_calibration.py b/corgidrp/pump_trap_calibration.py
index adca7b3..0aa60bf 100644
--- a/corgidrp/pump_trap_calibration.py
+++ b/corgidrp/pump_trap_calibration.py
@@ -3289,8 +3289,8 @@ def create_TrapCalibration_from_trap_dict(trap_dict,input_dataset):
         trap_cal_array[i,9] = dict_entry['tau at input T']
 
     #Great the header from the first file
-    first_file_pri_hdr = input_dataset[0].pri_hdr
-    first_file_ext_hdr = input_dataset[0].ext_hdr
+    first_file_pri_hdr = input_dataset[0].pri_hdr.copy()
+    first_file_ext_hdr = input_dataset[0].ext_hdr.copy()
 
     trapcal = TrapCalibration(trap_cal_array,pri_hdr = first_file_pri_hdr, 
                     ext_hdr = first_file_ext_hdr, 
-- 
2.43.0


From 98e84766092b49a8a3aa626ea6c41110becc3a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 60/82] fix: sorting of pupil images works with more than one
 candidate set for k-gain

---
 corgidrp/sorting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/sorting.py b/corgidrp/sorting.py
index e3fea75..8055848 100644
--- a/corgidrp/sorting.py
+++ b/corgidrp/sorting.py
@@ -151,7 +151,7 @@ def sort_pupilimg_frames(
             len(exptime_cons2) == len(set(exptime_cons2))):
             kgain_subset += [idx_cons2[0], idx_count+1]
             idx_cons2 = [idx_count+1]
-            exptime_cons2 = [exptime_cons]
+            exptime_cons2 = [exptime_cons[idx_count+1]]
         else:
         # It is not a subset for kgain
            continue
-- 
2.43.0


From 1da40127a39e6eb20b20ef0b4353e39dd1070635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 61/82] fix: the error of the on-sky flat field has an error
 layer dimension

---
 corgidrp/flat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/flat.py b/corgidrp/flat.py
index 1895445..598774e 100644
--- a/corgidrp/flat.py
+++ b/corgidrp/flat.py
@@ -256,6 +256,6 @@ def create_onsky_flatfield(dataset, planet=None,band=None,up_radius=55,im_size=N
     raster_com=combine_flatfield_rasters(resi_images,planet=planet,band=band,cent=cent, im_size=im_size, rad_mask=rad_mask,planet_rad=planet_rad,n_pix=n_pix, n_pad=n_pad)
     onskyflat=raster_com[0]
     onsky_flatfield = data.FlatField(onskyflat, pri_hdr=prihdr, ext_hdr=exthdr, input_dataset=dataset)
-    onsky_flatfield.err=raster_com[1]
+    onsky_flatfield.err=raster_com[1].reshape((1,)+raster_com[1].shape) # Get it into the right dimension
     
     return(onsky_flatfield)
-- 
2.43.0


From ab5f2f94b27252566105cf0dd49dd408bd1297e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 62/82] fix: the k-gain calibration leaves the headers of its
 input as they are

---
 corgidrp/calibrate_kgain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/calibrate_kgain.py b/corgidrp/calibrate_kgain.py
index 5555ddb..93fd5e6 100644
--- a/corgidrp/calibrate_kgain.py
+++ b/corgidrp/calibrate_kgain.py
@@ -772,8 +772,8 @@ def calibrate_kgain(dataset_kgain,
              compiled_binned_shot_deviations]
     ptc = np.column_stack(ptc_list)
 
-    prhd = dataset_kgain.frames[0].pri_hdr
-    exthd = dataset_kgain.frames[0].ext_hdr
+    prhd = dataset_kgain.frames[0].pri_hdr.copy()
+    exthd = dataset_kgain.frames[0].ext_hdr.copy()
     # Read noise and error
     exthd['RN'] = mean_rn_gauss_e
     
-- 
2.43.0


From 7e5512247ff57d1eb0cb623c1c934fe547ee91f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 63/82] fix: the non-linearity calibration leaves the headers
 of its input as they are

---
 corgidrp/calibrate_nonlin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/calibrate_nonlin.py b/corgidrp/calibrate_nonlin.py
index f135584..014d4b5 100644
--- a/corgidrp/calibrate_nonlin.py
+++ b/corgidrp/calibrate_nonlin.py
@@ -822,8 +822,8 @@ def calibrate_nonlin(dataset_nl,
     nonlin_data=np.insert(nonlin_arr3, 0, actual_gain_arr).reshape(n_col,n_row)
     
     # Return NonLinearity instance
-    prhd = dataset_nl.frames[0].pri_hdr
-    exthd = dataset_nl.frames[0].ext_hdr
+    prhd = dataset_nl.frames[0].pri_hdr.copy()
+    exthd = dataset_nl.frames[0].ext_hdr.copy()
     exthd['HISTORY'] = f"Non-linearity calibration derived from a set of frames on {exthd['DATETIME']}"
     # Just for the purpose of getting the instance created
     nonlin = data.NonLinearityCalibration(nonlin_data,
-- 
2.43.0


From 770e64d9f4817978cfa9a7123018fdfc8e6e1d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:33 +0000
Subject: [PATCH 64/82] fix: distortion correction keeps nan pixels from
 spreading over the whole image

---
 corgidrp/l3_to_l4.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 59389cc..075e3f3 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -1,7 +1,6 @@
 # A file that holds the functions that transmogrify l3 data to l4 data 
 
-from pyklip.klip import rotate
-import scipy.ndimage
+from pyklip.klip import rotate, nan_map_coordinates_2d
 from astropy.wcs import WCS
 
 from corgidrp import data
@@ -75,7 +74,8 @@ def distortion_correction(input_dataset, astrom_calibration):
         gridx = gridx - distmapX
         gridy = gridy - distmapY
 
-        undistorted_image = scipy.ndimage.map_coordinates(im_data, [gridy, gridx])
+        # nans (e.g. bad pixels) stay with their neighborhood, they would spread over the image otherwise
+        undistorted_image = nan_map_coordinates_2d(im_data, gridy, gridx, mc_kwargs={'cval': 0.})
 
         undistorted_ims.append(undistorted_image)
 
-- 
2.43.0


From a3c478a77b0075425cb5c73b59cfbb1aa2878978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 65/82] fix: unity gain frames taken before the k-gain series
 are not sorted into it

---
 corgidrp/sorting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/corgidrp/sorting.py b/corgidrp/sorting.py
index 8055848..e8ca093 100644
--- a/corgidrp/sorting.py
+++ b/corgidrp/sorting.py
@@ -153,8 +153,9 @@ def sort_pupilimg_frames(
             idx_cons2 = [idx_count+1]
             exptime_cons2 = [exptime_cons[idx_count+1]]
         else:
-        # It is not a subset for kgain
-           continue
+        # It is not a subset for kgain. Any series starts afterwards
+            idx_cons2 = [idx_count+1]
+            exptime_cons2 = [exptime_cons[idx_count+1]]
     # Choose the largest subset
     kgain_subset = np.array(kgain_subset)
     idx_kgain = np.argmax(kgain_subset[1::2] - kgain_subset[0::2])
-- 
2.43.0


From c8a893c89cd202d01af7cd23446a747fc6424c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 66/82] fix: illumination drift of the non-linearity
 calibration compares the two repeated sets with each other

---
 corgidrp/calibrate_nonlin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/calibrate_nonlin.py b/corgidrp/calibrate_nonlin.py
index 014d4b5..144e7ae 100644
--- a/corgidrp/calibrate_nonlin.py
+++ b/corgidrp/calibrate_nonlin.py
@@ -615,7 +615,8 @@ def calibrate_nonlin(dataset_nl,
                     repeat1_mean_signal = np.nanmean(frame_mean)
                     
                     second_half = len(selected_files)
-                    for i in range(first_half + 1, second_half):
+                    frame_mean = []
+                    for i in range(first_half, second_half):
                        
                         frame_1 = selected_files[i]
                         frame_1 = frame_1.astype(np.float64)
-- 
2.43.0


From 6f58c6ab554de906541bbb00d24f485240d8edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 67/82] fix: the disc of the planet in the on-sky flat field is
 centered on the planet for any crop size

---
 corgidrp/flat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/flat.py b/corgidrp/flat.py
index 598774e..610bfc9 100644
--- a/corgidrp/flat.py
+++ b/corgidrp/flat.py
@@ -141,7 +141,8 @@ def combine_flatfield_rasters(residual_images,cent=None,planet=None,band=None,im
         nx = np.arange(0,residual_images[i].shape[1])
         ny = np.arange(0,residual_images[i].shape[0])
         nxx,nyy = np.meshgrid(nx,ny)
-        nrr = np.sqrt((nxx-rad-5)**2 + (nyy-rad-5)**2)
+        # the planet is in the center of the cropped image, whatever its radius
+        nrr = np.sqrt((nxx-residual_images[i].shape[1]//2)**2 + (nyy-residual_images[i].shape[0]//2)**2)
         nrr_copy = nrr.copy();  nrr_err_copy=nrr.copy()
         nrr_copy[nrr<rad] = residual_images[i][nrr<rad]
         nrr_copy[nrr>=rad] = None
-- 
2.43.0


From 527e3bfc164f42f309d32f08b9065b1832dd616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 68/82] fix: illumination correction with a bin larger than the
 image subtracts the median instead of blanking the image

---
 corgidrp/pump_trap_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/pump_trap_calibration.py b/corgidrp/pump_trap_calibration.py
index 0aa60bf..7c87ba0 100644
--- a/corgidrp/pump_trap_calibration.py
+++ b/corgidrp/pump_trap_calibration.py
@@ -228,7 +228,7 @@ def illumination_correction(img, binsize, ill_corr):
         if np.mod(len(img), binsize) == 0:
             row_bins = np.arange(0, len(img)+1, binsize)
         else:
-            row_bins = np.arange(0, len(img), binsize)
+            row_bins = np.arange(0, max(len(img), binsize + 1), binsize)
         # If len(img) not divisible by binsize, this makes last bin of size
         # binsize + the remainder
         row_bins[-1] = len(img)
@@ -237,7 +237,7 @@ def illumination_correction(img, binsize, ill_corr):
         if np.mod(len(img[0]), binsize) == 0:
             col_bins = np.arange(0, len(img[0])+1, binsize)
         else:
-            col_bins = np.arange(0, len(img[0]), binsize)
+            col_bins = np.arange(0, max(len(img[0]), binsize + 1), binsize)
         col_bins[-1] = len(img[0])
 
         # initializing
-- 
2.43.0


From 82977c43186e3bd3313697d1ffda5fdc9834191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 69/82] fix: amplitudes of two-trap dipoles of trap pumping
 scheme 1 are converted to electrons too

---
 corgidrp/pump_trap_calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/corgidrp/pump_trap_calibration.py b/corgidrp/pump_trap_calibration.py
index 7c87ba0..37b1d7e 100644
--- a/corgidrp/pump_trap_calibration.py
+++ b/corgidrp/pump_trap_calibration.py
@@ -2470,6 +2470,8 @@ def tpump_analysis(input_dataset,time_head = 'TPTAU',
                     rc_below[i]['loc_med_max'] *= eperdn
                 for i in rc_both:
                     rc_both[i]['amps_both'] *= eperdn
+                    rc_both[i]['above']['amp'] *= eperdn
+                    rc_both[i]['below']['amp'] *= eperdn
                     rc_both[i]['loc_med_min'] *= eperdn
                     rc_both[i]['loc_med_max'] *= eperdn
             # below: short for no prob fit for scheme 1 above, below, both
-- 
2.43.0


From 7880acdc2dd8b0ae650c5d0c9a356daaed2f81e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 70/82] fix: trap pumping schemes may have different numbers of
 frames

---
 corgidrp/pump_trap_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/pump_trap_calibration.py b/corgidrp/pump_trap_calibration.py
index 37b1d7e..22c9737 100644
--- a/corgidrp/pump_trap_calibration.py
+++ b/corgidrp/pump_trap_calibration.py
@@ -2319,7 +2319,7 @@ def tpump_analysis(input_dataset,time_head = 'TPTAU',
         #Sort the things so that Scheme 1 is first
         sch_order = np.argsort(sch_list)
         sch_list = np.array(sch_list)[sch_order]
-        scheme_datasets = np.array(scheme_datasets)[sch_order]
+        scheme_datasets = [scheme_datasets[j] for j in sch_order]
         scheme_num_pumps = np.array(scheme_num_pumps)[sch_order]
 
         #Make a check to make sure that one of the schemes is Scheme 1
@@ -2343,7 +2343,7 @@ def tpump_analysis(input_dataset,time_head = 'TPTAU',
             #Grab the number of pumps associated with this scheme. 
             num_pumps = scheme_num_pumps[(sch_list == curr_sch)][0]
             
-            for frame in scheme_datasets[(sch_list == curr_sch),:][0]:
+            for frame in scheme_datasets[list(sch_list).index(curr_sch)]:
 
                 #Get the data and the phase time - convert from us to seconds
                 phase_time = float(frame.ext_hdr[time_head])/10**6
-- 
2.43.0


From 124e40552fa64a28fe7cbbabcdf37bfe32473ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 71/82] fix: fits of trap dipoles with a time-dependent capture
 probability receive the number of pumps

---
 corgidrp/pump_trap_calibration.py | 81 ++++++++++++++++---------------
 1 file changed, 41 insertions(+), 40 deletions(-)

diff --git a/corgidrp/pump_trap_calibration.py b/corgidrp/pump_trap_calibration.py
index 22c9737..f869b5c 100644
--- a/corgidrp/pump_trap_calibration.py
+++ b/corgidrp/pump_trap_calibration.py
@@ -17,6 +17,7 @@ https://doi.org/10.1117/1.JATIS.7.1.016003
     - output is now a corgi.drp.TrapCalibration object
 """
 import warnings
+from functools import partial
 import numpy as np
 
 from corgidrp.detector import *
@@ -741,10 +742,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
         if both_a == None:
             # attempt all possible probability functions
             try:
-                popt1l, pcov1l = curve_fit(P1, times, amps, bounds=bounds_one,
-                p0 = p01l, maxfev = np.inf,kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-                popt1u, pcov1u = curve_fit(P1, times, amps, bounds=bounds_one,
-                p0 = p01u, maxfev = np.inf,kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+                popt1l, pcov1l = curve_fit(partial(P1, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01l, maxfev = np.inf)#, sigma = 0.1*amps)
+                popt1u, pcov1u = curve_fit(partial(P1, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01u, maxfev = np.inf)#, sigma = 0.1*amps)
             except:
                 warnings.warn('curve_fit failed')
                 return None
@@ -765,10 +766,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
                 popt1 = popt1u; pcov1 = pcov1u
 
             try:
-                popt2l, pcov2l = curve_fit(P2, times, amps, bounds=bounds_one,
-                p0 = p01l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-                popt2u, pcov2u = curve_fit(P2, times, amps, bounds=bounds_one,
-                p0 = p01u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+                popt2l, pcov2l = curve_fit(partial(P2, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01l, maxfev = np.inf)#, sigma = 0.1*amps)
+                popt2u, pcov2u = curve_fit(partial(P2, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01u, maxfev = np.inf)#, sigma = 0.1*amps)
             except:
                 warnings.warn('curve_fit failed')
                 return None
@@ -805,10 +806,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
         # maxR1 must have been below fit_thresh.  Now try 2 traps
 
         try:
-            popt11l, pcov11l = curve_fit(P1_P1, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt11u, pcov11u = curve_fit(P1_P1, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt11l, pcov11l = curve_fit(partial(P1_P1, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = np.inf)#, sigma = 0.1*amps)
+            popt11u, pcov11u = curve_fit(partial(P1_P1, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = np.inf)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -831,10 +832,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
             popt11 = popt11u; pcov11 = pcov11u
 
         try:
-            popt12l, pcov12l = curve_fit(P1_P2, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt12u, pcov12u = curve_fit(P1_P2, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt12l, pcov12l = curve_fit(partial(P1_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = np.inf)#, sigma = 0.1*amps)
+            popt12u, pcov12u = curve_fit(partial(P1_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = np.inf)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -857,10 +858,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
             popt12 = popt12u; pcov12 = pcov12u
 
         try:
-            popt22l, pcov22l = curve_fit(P2_P2, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt22u, pcov22u = curve_fit(P2_P2, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt22l, pcov22l = curve_fit(partial(P2_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = np.inf)#, sigma = 0.1*amps)
+            popt22u, pcov22u = curve_fit(partial(P2_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = np.inf)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -974,10 +975,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
         if both_a == None:
             #attempt both probability functions
             try:
-                popt3l, pcov3l = curve_fit(P3, times, amps, bounds=bounds_one,
-                p0 = p01l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-                popt3u, pcov3u = curve_fit(P3, times, amps, bounds=bounds_one,
-                p0 = p01u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+                popt3l, pcov3l = curve_fit(partial(P3, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01l, maxfev = np.inf)#, sigma = 0.1*amps)
+                popt3u, pcov3u = curve_fit(partial(P3, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01u, maxfev = np.inf)#, sigma = 0.1*amps)
             except:
                 warnings.warn('curve_fit failed')
                 return None
@@ -998,10 +999,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
                 popt3 = popt3u; pcov3 = pcov3u
 
             try:
-                popt2l, pcov2l = curve_fit(P2, times, amps, bounds=bounds_one,
-                p0 = p01l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-                popt2u, pcov2u = curve_fit(P2, times, amps, bounds=bounds_one,
-                p0 = p01u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+                popt2l, pcov2l = curve_fit(partial(P2, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01l, maxfev = np.inf)#, sigma = 0.1*amps)
+                popt2u, pcov2u = curve_fit(partial(P2, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01u, maxfev = np.inf)#, sigma = 0.1*amps)
             except:
                 warnings.warn('curve_fit failed')
                 return None
@@ -1038,10 +1039,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
         # maxR1 must have been below fit_thresh.  Now try 2 traps
 
         try:
-            popt33l, pcov33l = curve_fit(P3_P3, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt33u, pcov33u = curve_fit(P3_P3, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt33l, pcov33l = curve_fit(partial(P3_P3, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = np.inf)#, sigma = 0.1*amps)
+            popt33u, pcov33u = curve_fit(partial(P3_P3, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = np.inf)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -1064,10 +1065,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
             popt33 = popt33u; pcov33 = pcov33u
 
         try:
-            popt23l, pcov23l = curve_fit(P2_P3, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt23u, pcov23u = curve_fit(P2_P3, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt23l, pcov23l = curve_fit(partial(P2_P3, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = np.inf)#, sigma = 0.1*amps)
+            popt23u, pcov23u = curve_fit(partial(P2_P3, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = np.inf)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -1090,10 +1091,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
             popt23 = popt23u; pcov23 = pcov23u
 
         try:
-            popt22l, pcov22l = curve_fit(P2_P2, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt22u, pcov22u = curve_fit(P2_P2, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt22l, pcov22l = curve_fit(partial(P2_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = np.inf)#, sigma = 0.1*amps)
+            popt22u, pcov22u = curve_fit(partial(P2_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = np.inf)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
-- 
2.43.0


From b64ec4758f855ddf4c71b291e8c41d35d715abfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:22 +0000
Subject: [PATCH 72/82] fix: flags of the PSF-subtracted product are integer
 flag words

---
 corgidrp/l3_to_l4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 075e3f3..6316b07 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -533,7 +533,7 @@ def do_psf_subtraction(input_dataset,
 
     # TODO: Handle errors correctly
     err = np.zeros([1,*pyklip_data.shape])
-    dq = np.zeros_like(pyklip_data) # This will get filled out later
+    dq = np.zeros(pyklip_data.shape, dtype=np.uint16) # This will get filled out later
 
     # Collapse sci_dataset headers
     pri_hdr = sci_dataset[0].pri_hdr.copy()
-- 
2.43.0


From d1ef02366ce60a3056c314afefbc441a4ade30b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 73/82] fix: world coordinates of the PSF-subtracted product
 have the orientation of its derotated images

---
 corgidrp/data.py     | 5 +++++
 corgidrp/l3_to_l4.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index eaac80e..668545e 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -2411,6 +2411,11 @@ class PyKLIPDataset(pyKLIP_Data):
         hdul[0].header.update({'CRPIX1': center[0] + 1, 'CRPIX2': center[1] + 1})
         hdul[0].header.add_history('Image recentered to {0}'.format(str(center)))
         
+        # Update orientation: pyKLIP has turned the images north up.
+        if self.output_wcs is not None and self.output_wcs[0] is not None:
+            cd = self.output_wcs[0].wcs.cd
+            hdul[0].header.update({'CD1_1': cd[0, 0], 'CD1_2': cd[0, 1], 'CD2_1': cd[1, 0], 'CD2_2': cd[1, 1]})
+        
         # Write FITS file.
         try:
             hdul.writeto(filepath, overwrite=True)
diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 6316b07..df5e809 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -545,6 +545,11 @@ def do_psf_subtraction(input_dataset,
         if not kw in skip_kws:
             ext_hdr.set(kw,val,comment)
 
+    # The CD matrix of the derotated images replaces the PC matrix of the first frame, if there is one
+    if 'CD1_1' in pyklip_hdr:
+        for kw in ['PC1_1','PC1_2','PC2_1','PC2_2']:
+            ext_hdr.remove(kw,ignore_missing=True)
+
     # Record KLIP algorithm explicitly
     pri_hdr.set('KLIP_ALG',mode)
     
-- 
2.43.0


From c96b4ace09a005b9fe38c9adea06798d8db5a932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:58 +0000
Subject: [PATCH 74/82] fix: NaN is neither a positive nor a nonnegative scalar

---
 corgidrp/check.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/check.py b/corgidrp/check.py
index a076e19..6955c14 100644
--- a/corgidrp/check.py
+++ b/corgidrp/check.py
@@ -67,7 +67,7 @@ def real_positive_scalar(var, vname, vexc):
         raise vexc(vname + ' must be scalar')
     if not np.isrealobj(var):
         raise vexc(vname + ' must be real')
-    if var <= 0:
+    if not var > 0: # also not NaN
         raise vexc(vname + ' must be positive')
     return var
 
@@ -242,7 +242,7 @@ def real_nonnegative_scalar(var, vname, vexc):
         raise vexc(vname + ' must be scalar')
     if not np.isrealobj(var):
         raise vexc(vname + ' must be real')
-    if var < 0:
+    if not var >= 0: # also not NaN
         raise vexc(vname + ' must be nonnegative')
     return var
 
-- 
2.43.0


From 7a82d82fc14d1eadc82379c2c9a191dc6f361e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:48 +0000
Subject: [PATCH 75/82] fix: the forward model returns the throughput of the
 requested KL mode

---
 corgidrp/measure_companions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/corgidrp/measure_companions.py b/corgidrp/measure_companions.py
index 6077d23..20084c0 100644
--- a/corgidrp/measure_companions.py
+++ b/corgidrp/measure_companions.py
@@ -431,9 +431,6 @@ def forward_model_psf(
     klip_thru_hdu = fm_psfsub[0].hdu_list['KL_THRU']
     klip_thru_data = klip_thru_hdu.data
     print("KL throughput", klip_thru_data)
-    # Find the index of the closest separation value
-    closest_idx = np.abs(klip_thru_data[0] - guesssep).argmin()
-
     # Get the corresponding algorithm throughput, returned data is
     # (N, n_seps, 2) where:
     # N is 1 plus the number of KL mode truncation choices (the extra “1” is for the reference separations).
@@ -442,7 +439,8 @@ def forward_model_psf(
     separations = klip_thru_data[0, :, 0]  # extract separation values from the header row
     # Find the index of the separation closest to desired_sep:
     closest_idx = np.argmin(np.abs(separations - guesssep))
-    kl_throughput_value = klip_thru_data[kl_mode_idx, closest_idx, 0]
+    # the first row holds the separations, the KL modes follow
+    kl_throughput_value = klip_thru_data[1:][kl_mode_idx, closest_idx, 0]
 
     # TO DO: figure out what to do about core throughput, if anything
     ct_value = 1                    # Placeholder value for core throughput.
-- 
2.43.0


From 238a6f418eedf1068620322eb0f1fff3616b0b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:37 +0000
Subject: [PATCH 76/82] fix: the astrometric calibration measures any north
 angle

---
 corgidrp/astrom.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 8d0c762..6c712ac 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -236,6 +236,22 @@ def angle_between(pos1, pos2):
     return angle * 180/np.pi
 
 
+def mean_angle(angles):
+    """
+    Mean of angles that lie close to each other, independent of where they wrap around.
+
+    Args:
+        angles (np.array): Angles [deg]
+
+    Returns:
+        angle (float): Mean angle [deg], from -180 up to 180
+    """
+    angles = np.ravel(angles)
+    diffs = (angles - angles[0] + 180) % 360 - 180
+
+    return (angles[0] + np.mean(diffs) + 180) % 360 - 180
+
+
 def get_polar_dist(seppa1,seppa2):
     """Computes the linear distance between two points in polar coordinates.
 
@@ -503,7 +519,7 @@ def match_sources(image, sources, field_path, comparison_threshold=50, rad=0.012
     rot_image = np.array([angle_between((targetx, targety), (s['x'], s['y'])) for s in [source1, source2, source3]])
     rot_field = np.array([target_skycoord.position_angle(t).deg for t in skycoords[[best_sky_ind]]])
 
-    initial_northangle = np.abs(np.mean(rot_field - rot_image))
+    initial_northangle = mean_angle(rot_field - rot_image)
 
     # make a new image header with the pseudo platescale and north angle to find matchings
     # allow for some error window and assign the closest star to each source
@@ -784,7 +800,7 @@ def compute_platescale_and_northangle(image, source_info, center_coord, center_r
         if i != same_ind:
             numerator = np.sin(np.radians(sky - pix))
             denominator = np.cos(np.radians(sky - pix))
-            north_offset = np.degrees(np.arctan(numerator / denominator))
+            north_offset = np.degrees(np.arctan2(numerator, denominator))
             # if sky > pix:
             #     north_offset = sky - pix
             # else:
@@ -796,7 +812,7 @@ def compute_platescale_and_northangle(image, source_info, center_coord, center_r
         offset = np.delete(offset, same_ind)
 
     # use the median to avoid bias
-    north_angle = np.mean(offset)
+    north_angle = mean_angle(offset)
     
     return platescale, north_angle
 
@@ -1130,7 +1146,7 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     avg_dec = np.mean([astro.avg_offset[1] for astro in astroms])
     avg_platescale_x = np.mean([astro.platescale[0] for astro in astroms])
     avg_platescale_y = np.mean([astro.platescale[1] for astro in astroms])
-    avg_northangle = np.mean([astro.northangle for astro in astroms])
+    avg_northangle = mean_angle([astro.northangle for astro in astroms])
 
     # compute the distortion map coeffs
     if find_distortion:
-- 
2.43.0


From 5ffe85b29d9eed69693846dd36fa68a4fac30d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:30 +0000
Subject: [PATCH 77/82] fix: the core throughput at the largest measured
 azimuth is the one measured there

---
 corgidrp/data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 668545e..401bf2a 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1811,8 +1811,10 @@ class CoreThroughputCalibration(Image):
         azimuth_cor = np.arctan2(y_cor, x_cor) - azimuth0
        
         # MOD this azimuth so that we're in the right range: all angles will be
-        # within [0, azimuths.max()), including negative values
-        azimuth_cor = azimuth_cor % azimuths.max()
+        # within [0, azimuths.max()], including negative values. The maximum
+        # azimuth itself is part of the measurements
+        azimuth_cor = np.where(azimuth_cor == azimuths.max(), azimuth_cor,
+            azimuth_cor % azimuths.max())
        
         if logr: 
             radii = np.log10(radii)
-- 
2.43.0


From 8de44e9ca6e9be8883e650f220944b3628c58e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:50 +0000
Subject: [PATCH 78/82] fix: source matching predicts the stars at their place,
 not one pixel away

---
 corgidrp/astrom.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 6c712ac..389bf61 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -534,8 +534,9 @@ def match_sources(image, sources, field_path, comparison_threshold=50, rad=0.012
     new_hdr['CD2_2'] = cdmatrix[1,1]
     # new_hdr['CRPIX1'] = (np.shape(image.data)[1]-1) // 2
     # new_hdr['CRPIX2'] = (np.shape(image.data)[0]-1) // 2
-    new_hdr['CRPIX1'] = targetx
-    new_hdr['CRPIX2'] = targety
+    # FITS counts pixels from 1
+    new_hdr['CRPIX1'] = targetx + 1
+    new_hdr['CRPIX2'] = targety + 1
     new_hdr['CTYPE1'] = 'RA---TAN'
     new_hdr['CTYPE2'] = 'DEC--TAN'
     new_hdr['CDELT1'] = (initial_platescale * 0.001) / 3600.
-- 
2.43.0


From e9e3ecd70b4a60900c144bcaa232ba2a83a2c295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:41 +0000
Subject: [PATCH 79/82] fix: parameters given to find_star do not become the
 defaults of later calls

---
 corgidrp/l3_to_l4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index df5e809..80e1a5a 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -1,5 +1,6 @@
 # A file that holds the functions that transmogrify l3 data to l4 data 
 
+import copy
 from pyklip.klip import rotate, nan_map_coordinates_2d
 from astropy.wcs import WCS
 
@@ -230,7 +231,7 @@ def find_star(input_dataset,
     if star_coordinate_guess is None:
         star_coordinate_guess = (img_sat_spot.shape[1] // 2, img_sat_spot.shape[0] // 2)
 
-    tuningParamDict = satellite_spot_parameters_defaults[observing_mode]
+    tuningParamDict = copy.deepcopy(satellite_spot_parameters_defaults[observing_mode])
     # See if the satellite spot parameters are provided, if not used defaults
     if satellite_spot_parameters is not None:
         tuningParamDict = star_center.update_parameters(tuningParamDict, satellite_spot_parameters)
-- 
2.43.0


From b05314dcbd7a405a6c6b514517499bf812263765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:41 +0000
Subject: [PATCH 80/82] fix: the boresight calibration uses the source matches
 it is given

---
 corgidrp/astrom.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 389bf61..03429fa 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1124,8 +1124,11 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
         target_coord_tables.append(target_coord_tab)
    
         # compute the calibration properties
-        found_sources = find_source_locations(image, threshold=find_threshold, fwhm=fwhm, mask_rad=mask_rad)
-        matched_sources = match_sources(dataset[i], found_sources, field_path, comparison_threshold=comparison_threshold, rad=search_rad, platescale_guess=platescale_guess, platescale_tol=platescale_tol)
+        if field_matches is not None:
+            matched_sources = matched_sources_multiframe[i * (frames_to_combine or 1)]
+        else:
+            found_sources = find_source_locations(image, threshold=find_threshold, fwhm=fwhm, mask_rad=mask_rad)
+            matched_sources = match_sources(dataset[i], found_sources, field_path, comparison_threshold=comparison_threshold, rad=search_rad, platescale_guess=platescale_guess, platescale_tol=platescale_tol)
         # if len(hold_matches) < 1:
         hold_matches.append(matched_sources)
 
-- 
2.43.0


From 4640360fc77bae562a853d9a39cabcd19362c6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:41 +0000
Subject: [PATCH 81/82] fix: the distortion of combined frames is measured in
 the combined frames

---
 corgidrp/astrom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 03429fa..c9aed0a 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1155,9 +1155,9 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     # compute the distortion map coeffs
     if find_distortion:
         # use the found matches for distortion
-        first_stars, offsets, true_offsets, errs = format_distortion_inputs(input_dataset, source_matches=hold_matches, ref_star_pos=target_coord_tables, position_error=position_error)
+        first_stars, offsets, true_offsets, errs = format_distortion_inputs(dataset, source_matches=hold_matches, ref_star_pos=target_coord_tables, position_error=position_error)
         mean_xy_platescale = np.mean([avg_platescale_x, avg_platescale_y])
-        distortion_coeffs, order = compute_distortion(input_dataset, first_stars, offsets, true_offsets, errs, platescale=mean_xy_platescale, northangle=avg_northangle, fitorder=fitorder, initial_guess=initial_dist_guess)
+        distortion_coeffs, order = compute_distortion(dataset, first_stars, offsets, true_offsets, errs, platescale=mean_xy_platescale, northangle=avg_northangle, fitorder=fitorder, initial_guess=initial_dist_guess)
     else:
         # set default coeffs to produce zero distortion
         fitparams = (fitorder + 1)**2
-- 
2.43.0


From 61c0bb5d724ea0b2e44ee0d030a9db852f86b5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:29 +0000
Subject: [PATCH 82/82] fix: find_star returns frames attached to their data
 cubes if spot frames are kept

---
 corgidrp/l3_to_l4.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 80e1a5a..8edd332 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -220,12 +220,9 @@ def find_star(input_dataset,
 
     observing_mode = observing_mode[0]
 
-    sci_dataset = data.Dataset(sci_frames)
-    sat_spot_dataset = data.Dataset(sat_spot_frames)
-
     # Compute median images
-    img_ref = np.median(sci_dataset.all_data, axis=0)
-    img_sat_spot = np.median(sat_spot_dataset.all_data, axis=0)
+    img_ref = np.median([frame.data for frame in sci_frames], axis=0)
+    img_sat_spot = np.median([frame.data for frame in sat_spot_frames], axis=0)
 
     # Default star_coordinate_guess to center of img_sat_spot if None
     if star_coordinate_guess is None:
@@ -249,7 +246,7 @@ def find_star(input_dataset,
     header_entries = {'STARLOCX': star_xy[0], 'STARLOCY': star_xy[1]}
 
     if drop_satspots_frames:
-        dataset = sci_dataset
+        dataset = data.Dataset(sci_frames)
 
     history_msg = (
         f"Satellite spots analyzed. Star location at x={star_xy[0]} "
-- 
2.43.0

