From 1b39c4ef66c52b2fa02cea97cc23953d29b9ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 01/40] fix: sdp_gridder_make_pswf_kernel no longer writes a
 double into a float window

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 0a8c1a8..1c6b971 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1344,7 +1344,17 @@ void sdp_gridder_make_pswf_kernel(
             sdp_mem_type(kernel), SDP_MEM_CPU, 1, pswf_shape, status
     );
     sdp_generate_pswf(0, support * (M_PI / 2), pswf, status);
-    if (vr_size % 2 == 0) ((double*) sdp_mem_data(pswf))[0] = 1e-15;
+    if (vr_size % 2 == 0 && !*status)
+    {
+        if (sdp_mem_type(pswf) == SDP_MEM_FLOAT)
+        {
+            ((float*) sdp_mem_data(pswf))[0] = 1e-15f;
+        }
+        else
+        {
+            ((double*) sdp_mem_data(pswf))[0] = 1e-15;
+        }
+    }
     sdp_gridder_make_kernel(pswf, kernel, status);
     sdp_mem_free(pswf);
 }
-- 
2.43.0


From 33157b427910da7799df21882401fa55fe34434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 02/40] fix: sdp_gridder_dft and sdp_gridder_idft use only the
 channels from start_chs to end_chs

---
 .../grid_data/sdp_gridder_utils.cpp           | 22 ++++++++-----------
 .../grid_data/sdp_gridder_utils.cu            | 12 ++++------
 2 files changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 1c6b971..2f6a9a7 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -181,11 +181,10 @@ void dft(
     #pragma omp parallel for
     for (int64_t i = 0; i < num_uvw; ++i)
     {
-        // Skip if there's no visibility to degrid.
-        if (start_chs && end_chs && start_chs_(i) >= end_chs_(i)) continue;
-
-        // Loop over channels.
-        for (int c = 0; c < num_chan; ++c)
+        // Loop over selected channels.
+        const int start_ch = (start_chs && end_chs) ? start_chs_(i) : 0;
+        const int end_ch = (start_chs && end_chs) ? end_chs_(i) : num_chan;
+        for (int c = start_ch; c < end_ch; ++c)
         {
             const double inv_wave = (freq0_hz + dfreq_hz * c) / C_0;
 
@@ -281,14 +280,11 @@ void idft(
             // Loop over uvw values.
             for (int64_t i = 0; i < num_uvw; ++i)
             {
-                // Skip if there's no visibility to grid.
-                if (start_chs && end_chs && start_chs_(i) >= end_chs_(i))
-                {
-                    continue;
-                }
-
-                // Loop over channels.
-                for (int c = 0; c < num_chan; ++c)
+                // Loop over selected channels.
+                const int start_ch = (start_chs && end_chs) ? start_chs_(i) : 0;
+                const int end_ch = (start_chs && end_chs) ?
+                            end_chs_(i) : num_chan;
+                for (int c = start_ch; c < end_ch; ++c)
                 {
                     const double inv_wave = (freq0_hz + dfreq_hz * c) / C_0;
 
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
index 32c2f94..c2067ff 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
@@ -98,14 +98,10 @@ __global__ void sdp_gridder_idft(
     // Loop over uvw values.
     for (int64_t i = 0; i < num_uvw; ++i)
     {
-        // Skip if there's no visibility to grid.
-        if (use_start_end_chs && start_chs(i) >= end_chs(i))
-        {
-            continue;
-        }
-
-        // Loop over channels.
-        for (int c = 0; c < num_chan; ++c)
+        // Loop over selected channels.
+        const int start_ch = use_start_end_chs ? start_chs(i) : 0;
+        const int end_ch = use_start_end_chs ? end_chs(i) : num_chan;
+        for (int c = start_ch; c < end_ch; ++c)
         {
             const double inv_wave = (freq0_hz + dfreq_hz * c) / C_0;
 
-- 
2.43.0


From c4a71d6d29daee8d2bad6e4ff71a3fdee2a7e56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 03/40] fix: sdp_gridder_dft checks the type of the fluxes, not
 that of the directions twice

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 2f6a9a7..2b7cbb5 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1054,7 +1054,7 @@ void sdp_gridder_dft(
 {
     if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(vis);
-    const sdp_MemType flux_type = sdp_mem_type(lmn);
+    const sdp_MemType flux_type = sdp_mem_type(flux);
     const sdp_MemType dir_type = sdp_mem_type(lmn);
     const sdp_MemType uvw_type = sdp_mem_type(uvws);
     const sdp_MemType vis_type = sdp_mem_type(vis);
-- 
2.43.0


From 5ddef47b59a2f1a99009c21dd5b0b14964def435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 04/40] fix: sdp_fft_free releases the vectors that describe
 the data layout

---
 src/ska-sdp-func/fourier_transforms/sdp_fft.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
index 1d11978..372e970 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
@@ -612,9 +612,6 @@ void sdp_fft_create_pocketfft(
     const int32_t num_dims = sdp_mem_num_dims(input);
 
     // Allocate information about data layout.
-    // (Note that this is a std::vector, but was originally allocated
-    //  using calloc. There's a chance this might cause problems with
-    //  certain standard library implementations!)
     for (int i = 0; i < num_dims; i++)
     {
         fft->shape.push_back(sdp_mem_shape_dim(input, i));
@@ -825,7 +822,7 @@ sdp_Fft* sdp_fft_create(
     if (*status) return NULL;
 
     // Allocate space for a plan.
-    sdp_Fft* fft = (sdp_Fft*) calloc(1, sizeof(sdp_Fft));
+    sdp_Fft* fft = new sdp_Fft();
     fft->input = sdp_mem_create_alias(input);
     fft->output = sdp_mem_create_alias(output);
     fft->num_dims = num_dims_fft;
@@ -947,17 +944,11 @@ void sdp_fft_free(sdp_Fft* fft)
 #endif
 #ifdef SDP_HAVE_MKL
     (void) DftiFreeDescriptor(&fft->mkl_plan);
-#endif
-#ifdef SDP_USE_POCKETFFT
-    fft->shape.clear();
-    fft->stride_in.clear();
-    fft->stride_out.clear();
-    fft->axes.clear();
 #endif
     sdp_mem_ref_dec(fft->input);
     sdp_mem_ref_dec(fft->output);
     sdp_mem_free(fft->temp);
-    free(fft);
+    delete fft;
 }
 
 
-- 
2.43.0


From 46d36148adc72d0a8d171614b3d1c7390a331eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 05/40] fix: sdp_flagger_dynamic_threshold does not read past
 the end of a single-element window

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 6668977..9e7cdf4 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -1,5 +1,6 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
+#include <algorithm>
 #include <complex>
 #include <math.h>
 #include "src/ska-sdp-func/visibility/sdp_flagger.h"
@@ -82,7 +83,7 @@ static void filler(AA* arr, VL val, int length)
 
 static double median_calc(double* arr, int n)
 {
-    int mid = int(round(0.5 * n));
+    int mid = std::min(int(round(0.5 * n)), n - 1);
     double median = arr[mid];
     return median;
 }
@@ -90,7 +91,7 @@ static double median_calc(double* arr, int n)
 
 static double median_dev_calc(double* arr, int n, double median)
 {
-    int mid = int(round(0.5 * n));
+    int mid = std::min(int(round(0.5 * n)), n - 1);
     double* devs = new double[n];
     for (int i = 0; i < n; i++)
     {
-- 
2.43.0


From 93170e959238f79e4e92d23c82424e1dbdd6a52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 06/40] fix: sdp_flagger_dynamic_threshold extends the flagged
 window to channel 0

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 9e7cdf4..3a4898e 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -230,7 +230,7 @@ static void flagger_dynamic_threshold(
                             {
                                 for (int w = 0; w < window; w++)
                                 {
-                                    if (c - w - 1 > 0)
+                                    if (c - w - 1 >= 0)
                                     {
                                         pos = baseline_pos + (c - w - 1) *
                                                 num_pols + p;
@@ -315,7 +315,7 @@ static void flagger_dynamic_threshold(
                                 {
                                     for (int w = 0; w < window; w++)
                                     {
-                                        if (c - w - 1 > 0)
+                                        if (c - w - 1 >= 0)
                                         {
                                             pos = baseline_pos + (c - w - 1) *
                                                     num_pols + p;
-- 
2.43.0


From 839de80615e3032710605c2f3e10837aa0a83717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 07/40] fix: wrap negative facet offsets in all SwiFTly subgrid
 functions

Only the 1D sdp_swiftly_add_to_subgrid reduced the facet offset modulo the
image size. The 2D version and both extract_from_subgrid functions computed
array indices with the C++ remainder of a possibly negative number, and so
read or wrote outside of the contribution for facets left of the centre.
---
 .../fourier_transforms/sdp_swiftly.cpp            | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 2843db9..5b3e1ac 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -422,11 +422,13 @@ void sdp_swiftly_add_to_subgrid_2d(
     if (*status) return;
 
     // Calculate facet offsets (in xM_size resolution).
-    const int64_t fct_offs0 = facet_offset0 / (image_size / xM_size);
+    const int64_t fct_offs0 =
+            mod_p(facet_offset0, image_size) / (image_size / xM_size);
     const int64_t offs0 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs0,
             xM_size
     );
-    const int64_t fct_offs1 = facet_offset1 / (image_size / xM_size);
+    const int64_t fct_offs1 =
+            mod_p(facet_offset1, image_size) / (image_size / xM_size);
     const int64_t offs1 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs1,
             xM_size
     );
@@ -875,7 +877,8 @@ void sdp_swiftly_extract_from_subgrid(
     for (int64_t i0 = 0; i0 < bc0_size; i0++)
     {
         // Calculate facet offsets (in xM_size resolution).
-        const int64_t fct_offs = facet_offset / (image_size / xM_size);
+        const int64_t fct_offs =
+                mod_p(facet_offset, image_size) / (image_size / xM_size);
         const int64_t offs = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs,
                 xM_size
         );
@@ -939,11 +942,13 @@ void sdp_swiftly_extract_from_subgrid_2d(
     if (*status) return;
 
     // Calculate facet offsets (in xM_size resolution).
-    const int64_t fct_offs0 = facet_offset0 / (image_size / xM_size);
+    const int64_t fct_offs0 =
+            mod_p(facet_offset0, image_size) / (image_size / xM_size);
     const int64_t offs0 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs0,
             xM_size
     );
-    const int64_t fct_offs1 = facet_offset1 / (image_size / xM_size);
+    const int64_t fct_offs1 =
+            mod_p(facet_offset1, image_size) / (image_size / xM_size);
     const int64_t offs1 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs1,
             xM_size
     );
-- 
2.43.0


From a39e56aa546cab9e65a7fea76bd8366470b8652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 08/40] fix: use strides of temporary array in
 sdp_swiftly_finish_subgrid_inplace_2d

The strides of the sub-grid were also used for the (contiguous) temporary
output, so that the transform of a sub-grid that is not contiguous wrote
past the end of the temporary.
---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 5b3e1ac..443825a 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -701,7 +701,7 @@ void sdp_swiftly_finish_subgrid_inplace_2d(
     const pocketfft::stride_t stride_tmp = {
         xM_size* cpx_size, cpx_size
     };
-    pocketfft::c2c(shape, stride, stride, { 0, 1 }, pocketfft::BACKWARD,
+    pocketfft::c2c(shape, stride, stride_tmp, { 0, 1 }, pocketfft::BACKWARD,
             sg.ptr, tmp.ptr, 1. / xM_size / xM_size
     );
 
-- 
2.43.0


From 83295824bdc5ff0d5507d323351bde6c7b5d7e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 09/40] fix: release the plan itself in sdp_swiftly_free

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 443825a..5e41524 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -150,6 +150,7 @@ void sdp_swiftly_free(sdp_SwiFTly* swiftly)
     {
         sdp_mem_free(swiftly->Fb);
         sdp_mem_free(swiftly->Fn);
+        free(swiftly);
     }
 }
 
-- 
2.43.0


From abde578539c0dd1201a23c9f2b193476d1690e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 10/40] fix: report failed allocations of array handles and
 converted arrays

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index b2de041..ad46aa7 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -39,6 +39,7 @@ namespace {
 // Local function to perform the memory allocation.
 void sdp_mem_alloc(sdp_Mem* mem, sdp_Error* status)
 {
+    if (!mem) return;
     mem->is_owner = 1; // Set flag to indicate ownership, as we're allocating.
     const size_t bytes = mem->num_elements * sdp_mem_type_size(mem->type);
     if (*status || bytes == 0) return;
@@ -188,6 +189,12 @@ sdp_Mem* sdp_mem_create_wrapper(
 )
 {
     sdp_Mem* mem = (sdp_Mem*) calloc(1, sizeof(sdp_Mem));
+    if (!mem)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        SDP_LOG_CRITICAL("Host memory allocation failure");
+        return 0;
+    }
     mem->data = data;
     mem->ref_count = 1;
     mem->type = type;
@@ -209,6 +216,13 @@ sdp_Mem* sdp_mem_create_wrapper(
     // Store shape (and strides, if given; otherwise compute them).
     mem->shape = (int64_t*) calloc(mem->num_dims, sizeof(int64_t));
     mem->stride = (int64_t*) calloc(mem->num_dims, sizeof(int64_t));
+    if (!mem->shape || !mem->stride)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        SDP_LOG_CRITICAL("Host memory allocation failure");
+        sdp_mem_free(mem);
+        return 0;
+    }
     for (int32_t i = num_dims - 1; i >= 0; --i)
     {
         mem->shape[i] = shape[i];
@@ -280,6 +294,12 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
     int64_t* stride = (int64_t*) calloc(
             (uint32_t) num_dims_slice, sizeof(int64_t)
     );
+    if (!stride && num_dims_slice > 0)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        SDP_LOG_CRITICAL("Host memory allocation failure");
+        return 0;
+    }
     for (int32_t i = 0; i < src->num_dims; ++i)
     {
         offset += slice_offsets[i] * src->stride[i]; // stride in bytes.
@@ -390,6 +410,11 @@ sdp_Mem* sdp_mem_convert_precision(
     sdp_Mem* output = sdp_mem_create(
             output_type, SDP_MEM_CPU, src->num_dims, src->shape, status
     );
+    if (*status)
+    {
+        sdp_mem_free(src_temp);
+        return output;
+    }
     const int64_t num_elements = sdp_mem_num_elements(src);
     if (input_type == SDP_MEM_COMPLEX_DOUBLE &&
             output_type == SDP_MEM_COMPLEX_FLOAT)
-- 
2.43.0


From 79d962dc41ee8bbcac4cbdbba57cfd1020f16783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 11/40] fix: reject slices that extend past the end of the
 array

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index ad46aa7..f56de24 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -279,13 +279,15 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
     for (int32_t i = 0; i < num_dims_slice; ++i)
     {
         const int32_t i_dim_slice = num_dims_slice - 1 - i;
-        if (slice_shape[i_dim_slice] > src->shape[src->num_dims - 1 - i])
+        const int32_t i_dim_src = src->num_dims - 1 - i;
+        if (slice_shape[i_dim_slice] >
+                src->shape[i_dim_src] - slice_offsets[i_dim_src])
         {
             *status = SDP_ERR_INVALID_ARGUMENT;
             SDP_LOG_CRITICAL(
                     "Slice shape in dimension %d is too large: %d > %d",
                     i_dim_slice, slice_shape[i_dim_slice],
-                    src->shape[src->num_dims - 1 - i]
+                    src->shape[i_dim_src] - slice_offsets[i_dim_src]
             );
             return 0;
         }
-- 
2.43.0


From 2b8797c29ad2b054585623ec0456acb8592f43b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 12/40] fix: copy the elements of arrays that are not
 contiguous

sdp_mem_create_copy kept the strides of its source but allocated, and
copied from the source, as many adjacent elements as the array has. The
copy of a slice therefore held the wrong elements, and its strides pointed
past the end of its memory.
---
 src/ska-sdp-func/utility/sdp_mem.cpp | 29 ++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index f56de24..c3ebfdd 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -89,6 +89,25 @@ void sdp_mem_alloc(sdp_Mem* mem, sdp_Error* status)
 }
 
 
+// Copy elements of an array with any strides to one that is C contiguous.
+void sdp_mem_gather(sdp_Mem* dst, const sdp_Mem* src)
+{
+    const size_t element_size = (size_t) sdp_mem_type_size(src->type);
+    for (int64_t i = 0; i < src->num_elements; ++i)
+    {
+        int64_t index = i, offset = 0;
+        for (int32_t d = src->num_dims - 1; d >= 0; --d)
+        {
+            offset += (index % src->shape[d]) * src->stride[d];
+            index /= src->shape[d];
+        }
+        memcpy((char*) (dst->data) + i * element_size,
+                (const char*) (src->data) + offset, element_size
+        );
+    }
+}
+
+
 // Multiply all elements of an array by the specified value.
 template<typename T>
 void scale_real(sdp_Mem* mem, double value)
@@ -335,6 +354,16 @@ sdp_Mem* sdp_mem_create_copy(
         sdp_Error* status
 )
 {
+    if (src->data && src->num_dims > 0 && !src->is_c_contiguous &&
+            src->location == SDP_MEM_CPU && location == SDP_MEM_CPU)
+    {
+        // The elements are not adjacent in memory: gather them.
+        sdp_Mem* mem = sdp_mem_create(src->type, location,
+                src->num_dims, src->shape, status
+        );
+        if (!*status) sdp_mem_gather(mem, src);
+        return mem;
+    }
     sdp_Mem* mem = sdp_mem_create_wrapper(0, src->type, location,
             src->num_dims, src->shape, src->stride, status
     );
-- 
2.43.0


From 5918ba2c73a0b7083b5154cfa47bd32782012685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 13/40] fix: keep an earlier error in sdp_mem_check_same_shape

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index c3ebfdd..5722d91 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -1456,6 +1456,8 @@ void sdp_mem_check_same_shape_at(
         int line
 )
 {
+    if (*status) return;
+
     // Skip the check if the memory object has fewer dimension - we
     // assume there will be an sdp_mem_check_num_dims that will
     // already have objected to the wrong dimensionality.
-- 
2.43.0


From 61c0b260804751c2f38fa167db76607f4d3b3565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 14/40] fix: count references to array handles atomically

Handles shared by several threads could otherwise be freed twice or never.
---
 src/ska-sdp-func/utility/sdp_mem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 5722d91..78bdf08 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -1,5 +1,6 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
+#include <atomic>
 #include <complex>
 #include <cstdlib>
 #include <cstring>
@@ -26,7 +27,7 @@ struct sdp_Mem
     int32_t is_read_only; // True if data should be considered read only.
     int32_t num_dims; // Number of dimensions.
     int64_t num_elements; // Total number of elements allocated.
-    int32_t ref_count; // Reference counter.
+    std::atomic<int32_t> ref_count; // Reference counter.
     int64_t* shape; // Size of each dimension, in number of elements.
     int64_t* stride; // Stride in each dimension, in bytes (Python compatible).
     void* data; // Data pointer.
-- 
2.43.0


From ce1018d336ba66f7c3f758823c737286f7a4714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:13 +0000
Subject: [PATCH 15/40] fix: clear the elements of arrays that are not
 contiguous

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 35 ++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 78bdf08..4032f41 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -90,20 +90,28 @@ void sdp_mem_alloc(sdp_Mem* mem, sdp_Error* status)
 }
 
 
+// Return offset, in bytes, of an element of an array with any strides.
+int64_t element_offset(const sdp_Mem* mem, int64_t index)
+{
+    int64_t offset = 0;
+    for (int32_t d = mem->num_dims - 1; d >= 0; --d)
+    {
+        offset += (index % mem->shape[d]) * mem->stride[d];
+        index /= mem->shape[d];
+    }
+    return offset;
+}
+
+
 // Copy elements of an array with any strides to one that is C contiguous.
 void sdp_mem_gather(sdp_Mem* dst, const sdp_Mem* src)
 {
     const size_t element_size = (size_t) sdp_mem_type_size(src->type);
     for (int64_t i = 0; i < src->num_elements; ++i)
     {
-        int64_t index = i, offset = 0;
-        for (int32_t d = src->num_dims - 1; d >= 0; --d)
-        {
-            offset += (index % src->shape[d]) * src->stride[d];
-            index /= src->shape[d];
-        }
         memcpy((char*) (dst->data) + i * element_size,
-                (const char*) (src->data) + offset, element_size
+                (const char*) (src->data) + element_offset(src, i),
+                element_size
         );
     }
 }
@@ -377,6 +385,19 @@ sdp_Mem* sdp_mem_create_copy(
 void sdp_mem_clear_contents(sdp_Mem* mem, sdp_Error* status)
 {
     if (*status || !mem || mem->num_elements == 0) return;
+    if (mem->data && mem->num_dims > 0 && !mem->is_c_contiguous &&
+            mem->location == SDP_MEM_CPU)
+    {
+        // The elements are not adjacent in memory: clear them one by one.
+        const size_t element_size = (size_t) sdp_mem_type_size(mem->type);
+        for (int64_t i = 0; i < mem->num_elements; ++i)
+        {
+            memset((char*) (mem->data) + element_offset(mem, i),
+                    0, element_size
+            );
+        }
+        return;
+    }
     sdp_mem_clear_portion(mem, 0, mem->num_elements, status);
 }
 
-- 
2.43.0


From 8e4600ea825ab3e6a573535d6c89020c766faaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 16/40] fix: keep an earlier error when a wrapper or slice
 cannot be created

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 4032f41..797f0a8 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -219,7 +219,7 @@ sdp_Mem* sdp_mem_create_wrapper(
     sdp_Mem* mem = (sdp_Mem*) calloc(1, sizeof(sdp_Mem));
     if (!mem)
     {
-        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        if (!*status) *status = SDP_ERR_MEM_ALLOC_FAILURE;
         SDP_LOG_CRITICAL("Host memory allocation failure");
         return 0;
     }
@@ -232,7 +232,7 @@ sdp_Mem* sdp_mem_create_wrapper(
     const int64_t element_size = sdp_mem_type_size(type);
     if (element_size <= 0)
     {
-        *status = SDP_ERR_DATA_TYPE;
+        if (!*status) *status = SDP_ERR_DATA_TYPE;
         SDP_LOG_CRITICAL("Unsupported data type");
         return mem;
     }
@@ -246,7 +246,7 @@ sdp_Mem* sdp_mem_create_wrapper(
     mem->stride = (int64_t*) calloc(mem->num_dims, sizeof(int64_t));
     if (!mem->shape || !mem->stride)
     {
-        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        if (!*status) *status = SDP_ERR_MEM_ALLOC_FAILURE;
         SDP_LOG_CRITICAL("Host memory allocation failure");
         sdp_mem_free(mem);
         return 0;
@@ -283,7 +283,7 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
 {
     if (num_dims_slice > src->num_dims)
     {
-        *status = SDP_ERR_INVALID_ARGUMENT;
+        if (!*status) *status = SDP_ERR_INVALID_ARGUMENT;
         SDP_LOG_CRITICAL(
                 "Number of dimensions in slice (%d) is larger than src (%d)",
                 num_dims_slice, src->num_dims
@@ -294,7 +294,7 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
     {
         if (slice_offsets[i] >= src->shape[i] || slice_offsets[i] < 0)
         {
-            *status = SDP_ERR_INVALID_ARGUMENT;
+            if (!*status) *status = SDP_ERR_INVALID_ARGUMENT;
             SDP_LOG_CRITICAL(
                     "Slice offset in dimension %d is out of bounds: %d (max is %d)",
                     i,
@@ -311,7 +311,7 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
         if (slice_shape[i_dim_slice] >
                 src->shape[i_dim_src] - slice_offsets[i_dim_src])
         {
-            *status = SDP_ERR_INVALID_ARGUMENT;
+            if (!*status) *status = SDP_ERR_INVALID_ARGUMENT;
             SDP_LOG_CRITICAL(
                     "Slice shape in dimension %d is too large: %d > %d",
                     i_dim_slice, slice_shape[i_dim_slice],
@@ -326,7 +326,7 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
     );
     if (!stride && num_dims_slice > 0)
     {
-        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        if (!*status) *status = SDP_ERR_MEM_ALLOC_FAILURE;
         SDP_LOG_CRITICAL("Host memory allocation failure");
         return 0;
     }
-- 
2.43.0


From 51e4f2a51c2af685241a2b33782723f826d72e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 17/40] fix: take the time stamp of a log message once, without
 shared state

---
 src/ska-sdp-func/utility/sdp_logging.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_logging.c b/src/ska-sdp-func/utility/sdp_logging.c
index c8eefc1..7e7f6b0 100644
--- a/src/ska-sdp-func/utility/sdp_logging.c
+++ b/src/ska-sdp-func/utility/sdp_logging.c
@@ -1,5 +1,9 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
+#ifndef _POSIX_C_SOURCE
+#define _POSIX_C_SOURCE 200112L // For gmtime_r().
+#endif
+
 #include <stdarg.h>
 #include <stdlib.h>
 #include <string.h>
@@ -61,9 +65,14 @@ void sdp_log_message(
     // Get timestamp, as a string.
     char time_str[48];
     struct timeval tv;
-    const time_t unix_time = time(0);
-    struct tm* timeinfo = gmtime(&unix_time);
     gettimeofday(&tv, 0);
+    const time_t unix_time = tv.tv_sec;
+#ifdef SDP_OS_WIN
+    struct tm* timeinfo = gmtime(&unix_time);
+#else
+    struct tm time_buffer;
+    struct tm* timeinfo = gmtime_r(&unix_time, &time_buffer);
+#endif
     if (snprintf(time_str, sizeof(time_str),
             "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ",
             timeinfo->tm_year + 1900, timeinfo->tm_mon + 1, timeinfo->tm_mday,
-- 
2.43.0


From b6e30c51827ddd77ca195b4b43116b7472cffa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 18/40] fix: do not let log messages from several threads
 interleave

---
 src/ska-sdp-func/utility/sdp_logging.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/utility/sdp_logging.c b/src/ska-sdp-func/utility/sdp_logging.c
index 7e7f6b0..d61145c 100644
--- a/src/ska-sdp-func/utility/sdp_logging.c
+++ b/src/ska-sdp-func/utility/sdp_logging.c
@@ -1,7 +1,7 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
 #ifndef _POSIX_C_SOURCE
-#define _POSIX_C_SOURCE 200112L // For gmtime_r().
+#define _POSIX_C_SOURCE 200112L // For gmtime_r(), flockfile().
 #endif
 
 #include <stdarg.h>
@@ -112,12 +112,19 @@ void sdp_log_message(
     }
 
     // Print message to stream using SKA log formatting.
+    // Lock the stream, so that messages from other threads cannot interleave.
     va_list args;
     va_start(args, message);
+#ifndef SDP_OS_WIN
+    flockfile(stream);
+#endif
     (void) fprintf(stream, "1|%s|%s||%s|%s#%i|| ",
             time_str, level_str, func, file, line
     );
     (void) vfprintf(stream, message, args);
     (void) fprintf(stream, "\n");
+#ifndef SDP_OS_WIN
+    funlockfile(stream);
+#endif
     va_end(args);
 }
-- 
2.43.0


From 4002642021d76578824d1908e790e610a848efa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 19/40] fix: use the monotonic clock for timers where it is
 available

---
 src/ska-sdp-func/utility/sdp_timer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/utility/sdp_timer.cpp b/src/ska-sdp-func/utility/sdp_timer.cpp
index 1e2b74d..e40cf8b 100644
--- a/src/ska-sdp-func/utility/sdp_timer.cpp
+++ b/src/ska-sdp-func/utility/sdp_timer.cpp
@@ -48,7 +48,7 @@ static double sdp_get_wtime(sdp_Timer* timer)
     LARGE_INTEGER cntr;
     QueryPerformanceCounter(&cntr);
     return (double)(cntr.QuadPart) / timer->freq;
-#elif _POSIX_MONOTONIC_CLOCK > 0
+#elif defined(_POSIX_MONOTONIC_CLOCK) && _POSIX_MONOTONIC_CLOCK >= 0
     /* Use monotonic clock if available. */
     struct timespec ts;
     (void)timer;
-- 
2.43.0


From f60050bae04efa2943fbd158f2f80f849b595606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 20/40] fix: refuse a field of view without room for the
 worst-case image sources

sdp_gridder_worst_case_image() looked for a corner position that does not
divide the image size by counting down, and divided by zero when it reached
zero. Report an invalid argument instead, and return from
find_gridder_accuracy() before using views of arrays that were not filled.
---
 .../grid_data/sdp_gridder_wtower_height.cpp   | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
index 70241f1..125d36c 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
@@ -110,6 +110,18 @@ double find_gridder_accuracy(
     sdp_fft_norm(subgrid, status); // To match numpy's ifft.
     sdp_fft_free(fft_grid);
     sdp_fft_free(ifft_subgrid);
+    if (*status)
+    {
+        sdp_mem_free(src_flux);
+        sdp_mem_free(src_lmn);
+        sdp_mem_free(start_chs);
+        sdp_mem_free(end_chs);
+        sdp_mem_free(subgrid);
+        sdp_mem_free(uvws);
+        sdp_mem_free(vis_ref);
+        sdp_mem_free(vis_test);
+        return 0;
+    }
 
     // Determine error at random points with (u, v) less than
     // subgrid_size / 3 distance from centre (optimal w-tower size -
@@ -148,6 +160,15 @@ double find_gridder_accuracy(
     sdp_mem_free(subgrid);
     sdp_mem_free(start_chs);
     sdp_mem_free(end_chs);
+    if (*status)
+    {
+        sdp_mem_free(src_flux);
+        sdp_mem_free(src_lmn);
+        sdp_mem_free(uvws);
+        sdp_mem_free(vis_ref);
+        sdp_mem_free(vis_test);
+        return 0;
+    }
 
     // Generate reference data using a DFT.
     sdp_MemViewCpu<const double, 1> flux_;
@@ -292,10 +313,16 @@ void sdp_gridder_worst_case_image(
     // operating on-grid, and therefore not actually testing the window
     // function).
     int fov_edge = int(image_size / theta * fov / 2);
-    while (image_size % fov_edge == 0)
+    while (fov_edge > 0 && image_size % fov_edge == 0)
     {
         fov_edge -= 1;
     }
+    if (fov_edge < 1 || fov_edge >= image_size / 2)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Field of view does not fit the supplied image size");
+        return;
+    }
 
     // Put sources into corners, careful not to generate actual symmetries.
     sdp_mem_clear_contents(image, status);
-- 
2.43.0


From 3c53c1d02b6ce4a82374102080c6709d1e79b4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:07 +0000
Subject: [PATCH 21/40] fix: FFT convolution of an image with an odd size, or
 without padding

The size of the output was derived from the padded size, which is one
element too large if the input size is odd, so the output was overrun and
its rows were skewed. If no padding was needed, the first row and column
were read from index -1.
---
 .../numeric_functions/sdp_fft_convolution.cpp      | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index 65866b2..4f851b9 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -86,22 +86,22 @@ inline void sdp_remove_padding_2d(
         complex<T>* data,
         int64_t rows,
         int64_t cols,
+        int64_t original_rows,
+        int64_t original_cols,
         int64_t pad_rows,
         int64_t pad_cols
 )
 {
     int64_t i = 0, j = 0;
-    int64_t original_rows = rows - 2 * pad_rows;
-    int64_t original_cols = cols - 2 * pad_cols;
 
     for (i = 0; i < original_rows; i++)
     {
+        // The padding may be empty, so the start position can wrap around.
+        const int64_t i_pad = (i + pad_rows + rows - 1) % rows;
         for (j = 0; j < original_cols; j++)
         {
-            data[i * original_cols +
-                    j] =
-                    padded_data[(i + (pad_rows - 1)) * cols +
-                            (j + (pad_cols - 1))];
+            const int64_t j_pad = (j + pad_cols + cols - 1) % cols;
+            data[i * original_cols + j] = padded_data[i_pad * cols + j_pad];
         }
     }
 }
@@ -234,6 +234,8 @@ static void sdp_fft_convolution_cpu(
             out,
             pad_dim,
             pad_dim,
+            in1_dim,
+            in1_dim,
             extra_in1,
             extra_in1
     );
-- 
2.43.0


From 4bd3391d4914f16f9afc0f934f84e9837dd63faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:07 +0000
Subject: [PATCH 22/40] fix: refuse mismatched arrays in FFT convolution

The type and location of the second input and the shape of the output
were never checked, so a mismatch read or wrote beyond the arrays.
---
 .../numeric_functions/sdp_fft_convolution.cpp | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index 4f851b9..7d0f5f4 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -596,6 +596,28 @@ void sdp_fft_convolution(
         return;
     }
 
+    if (sdp_mem_location(in1) != sdp_mem_location(in2))
+    {
+        *status = SDP_ERR_MEM_LOCATION;
+        SDP_LOG_ERROR("Memory location mismatch");
+        return;
+    }
+
+    if (sdp_mem_type(in1) != sdp_mem_type(in2))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Both inputs must be of the same data type");
+        return;
+    }
+
+    if (sdp_mem_shape_dim(out, 0) != in1_dim_0 ||
+            sdp_mem_shape_dim(out, 1) != in1_dim_1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Output array must be the same shape as input array 1");
+        return;
+    }
+
     if (location == SDP_MEM_CPU)
     {
         if (data_type == SDP_MEM_COMPLEX_DOUBLE)
-- 
2.43.0


From 3f9c5bd86fa5c213025651030c7fbbd2452b9cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 23/40] fix: example A overran its work area if the output was
 larger than a * b

---
 src/ska-sdp-func/examples/sdp_function_example_a.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/examples/sdp_function_example_a.cpp b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
index 14c0fc7..cbc0709 100644
--- a/src/ska-sdp-func/examples/sdp_function_example_a.cpp
+++ b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
@@ -68,8 +68,8 @@ void sdp_function_example_a_exec(
         SDP_LOG_ERROR("Output is not writable");
         return;
     }
-    const int64_t num_elements = sdp_mem_num_elements(output);
-    if (num_elements < (plan->a * plan->b))
+    const int64_t num_elements = (int64_t) plan->a * plan->b;
+    if (sdp_mem_num_elements(output) < num_elements)
     {
         *status = SDP_ERR_RUNTIME;
         SDP_LOG_ERROR("Output is not big enough");
-- 
2.43.0


From 8dacfc3bd27665b16f4948c98f5028e349f7618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:18 +0000
Subject: [PATCH 24/40] fix: stride of the padded arrays in FFT convolution

The row length of a padded array was derived from the input size, which is
one element too small if the input size is odd.
---
 .../numeric_functions/sdp_fft_convolution.cpp       | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index 7d0f5f4..146607d 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -62,12 +62,11 @@ inline void sdp_pad_2d(
         int64_t rows,
         int64_t cols,
         int64_t pad_rows,
-        int64_t pad_cols
+        int64_t pad_cols,
+        int64_t padded_cols
 )
 {
     int64_t i = 0, j = 0;
-    // int64_t padded_rows = rows + 2*pad_rows;
-    int64_t padded_cols = cols + 2 * pad_cols;
 
     for (i = 0; i < rows; i++)
     {
@@ -162,7 +161,9 @@ static void sdp_fft_convolution_cpu(
     int64_t extra_in1 = (pad_dim - in1_dim) / 2;
 
     // pad in1
-    sdp_pad_2d<T>(in1, in1_pad_ptr, in1_dim, in1_dim, extra_in1, extra_in1);
+    sdp_pad_2d<T>(in1, in1_pad_ptr, in1_dim, in1_dim,
+            extra_in1, extra_in1, pad_dim
+    );
 
     // create memory to save padded input in2
     sdp_Mem* in2_pad_mem = sdp_mem_create(data_type,
@@ -178,7 +179,9 @@ static void sdp_fft_convolution_cpu(
     int64_t extra_in2 = (pad_dim - in2_dim) / 2;
 
     // pad in2
-    sdp_pad_2d<T>(in2, in2_pad_ptr, in2_dim, in2_dim, extra_in2, extra_in2);
+    sdp_pad_2d<T>(in2, in2_pad_ptr, in2_dim, in2_dim,
+            extra_in2, extra_in2, pad_dim
+    );
 
     // get FFT of padded in1
     sdp_Fft* in1_fft_plan = sdp_fft_create(in1_pad_mem,
-- 
2.43.0


From aa15d6d2eeceea9193382750b1e4e9b06d020df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:59 +0000
Subject: [PATCH 25/40] fix: tile range of a visibility in the CPU tiling
 functions

The lower bound in v was passed in place of the lower bound in u, so every
visibility was also put into all the tiles to the left of its own.
---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 26629dc..aa3875d 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -82,7 +82,7 @@ static void sdp_tile_count_simple(
                     int tile_v_max = 0;
 
                     TILE_RANGES(support,
-                            tile_v_min,
+                            tile_u_min,
                             tile_u_max,
                             tile_v_min,
                             tile_v_max
@@ -187,7 +187,7 @@ static void sdp_bucket_sort_simple(
                     int tile_v_min = 0;
                     int tile_v_max = 0;
                     TILE_RANGES(support,
-                            tile_v_min,
+                            tile_u_min,
                             tile_u_max,
                             tile_v_min,
                             tile_v_max
@@ -274,7 +274,7 @@ static void tiled_indexing(
                     int tile_v_min = 0;
                     int tile_v_max = 0;
                     TILE_RANGES(support,
-                            tile_v_min,
+                            tile_u_min,
                             tile_u_max,
                             tile_v_min,
                             tile_v_max
-- 
2.43.0


From 7f98af6d2c97abc6cbe47ad2303971004f27ede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:59 +0000
Subject: [PATCH 26/40] fix: the tiling functions ignored an error status

sdp_count_and_prefix_sum() counted into its outputs even if called with an
error status set, all three functions carried on after a failed parameter
check, and counting reported success without doing anything for
single-precision coordinates.
---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index aa3875d..a8ff5dd 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -315,6 +315,7 @@ void sdp_count_and_prefix_sum(
         sdp_Error* status
 )
 {
+    if (*status) return;
     // Initialise arrays to zero
     sdp_mem_clear_contents(tile_offsets, status);
     sdp_mem_clear_contents(num_points_in_tiles, status);
@@ -361,6 +362,7 @@ void sdp_count_and_prefix_sum(
             num_baselines,
             status
     );
+    if (*status) return;
 
     if (vis_location == SDP_MEM_CPU)
     {
@@ -393,6 +395,11 @@ void sdp_count_and_prefix_sum(
 
             *num_visibilites = *((int*)sdp_mem_data(tile_offsets) + num_tiles);
         }
+        else
+        {
+            *status = SDP_ERR_DATA_TYPE;
+            SDP_LOG_ERROR("Unsupported data type(s)");
+        }
     }
     else if (vis_location == SDP_MEM_GPU)
     {
@@ -570,6 +577,7 @@ void sdp_bucket_sort(
             num_pols,
             status
     );
+    if (*status) return;
 
     if (vis_location == SDP_MEM_CPU)
     {
@@ -758,6 +766,7 @@ void sdp_tiled_indexing(
             num_baselines,
             status
     );
+    if (*status) return;
 
     if (uvw_loc == SDP_MEM_CPU)
     {
-- 
2.43.0


From b8fcc0575a9837cdafbae18216c09fc558a1a0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:20 +0000
Subject: [PATCH 27/40] fix: report failed allocations when evaluating PSWFs
 and padded sizes

---
 .../sdp_fft_padded_size.cpp                   | 18 ++++++++++++------
 .../fourier_transforms/sdp_pswf.cpp           | 19 +++++++++++++++++++
 .../grid_data/sdp_gridder_grid_correct.cpp    |  7 +++++++
 3 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_fft_padded_size.cpp b/src/ska-sdp-func/fourier_transforms/sdp_fft_padded_size.cpp
index 5340590..97c3502 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_fft_padded_size.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_fft_padded_size.cpp
@@ -59,7 +59,7 @@ static int64_t heap_extract_min(int64_t heap[], int* heap_size)
 }
 
 
-static void heap_insert(
+static int heap_insert(
         int64_t** heap,
         int* heap_size,
         int* heap_capacity,
@@ -70,17 +70,21 @@ static void heap_insert(
     if (*heap_size >= *heap_capacity)
     {
         *heap_capacity *= 2;
-        *heap = (int64_t*) realloc(*heap, (*heap_capacity) * sizeof(int64_t));
-        if (!*heap)
+        int64_t* new_heap = (int64_t*) realloc(
+                *heap, (*heap_capacity) * sizeof(int64_t)
+        );
+        if (!new_heap)
         {
             SDP_LOG_CRITICAL("Memory reallocation failed");
-            return;
+            return 0;
         }
+        *heap = new_heap;
     }
 
     // Insert the new value at the end of the heap.
     (*heap)[(*heap_size)++] = value;
     heapify_up(*heap, *heap_size - 1);
+    return 1;
 }
 
 
@@ -114,9 +118,11 @@ int sdp_fft_padded_size(int n, double padding_factor)
         for (int j = 0; j < num_primes; j++)
         {
             const int64_t trial = next * primes[j];
-            if (trial <= limit)
+            if (trial <= limit &&
+                    !heap_insert(&heap, &heap_size, &heap_capacity, trial))
             {
-                heap_insert(&heap, &heap_size, &heap_capacity, trial);
+                free(heap);
+                return 0;
             }
         }
     }
diff --git a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
index 8d3bb47..67cbe85 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
@@ -617,10 +617,16 @@ sdp_Pswf* sdp_pswf_create(int m, double c)
 {
     sdp_Error status = SDP_SUCCESS;
     sdp_Pswf* plan = (sdp_Pswf*) calloc(1, sizeof(sdp_Pswf));
+    if (!plan) return NULL;
     const int64_t coeff_shape[] = {200};
     plan->coeff = sdp_mem_create(
             SDP_MEM_DOUBLE, SDP_MEM_CPU, 1, coeff_shape, &status
     );
+    if (status)
+    {
+        sdp_pswf_free(plan);
+        return NULL;
+    }
     plan->coeff_p = (double*) sdp_mem_data(plan->coeff);
     plan->m = m;
     plan->c = c;
@@ -699,6 +705,7 @@ double sdp_pswf_par_m(const sdp_Pswf* plan)
 
 void sdp_pswf_free(sdp_Pswf* plan)
 {
+    if (!plan) return;
     sdp_mem_free(plan->pswf);
     sdp_mem_free(plan->pswf_gpu);
     sdp_mem_free(plan->coeff);
@@ -716,6 +723,12 @@ void sdp_pswf_generate(
 )
 {
     if (*status) return;
+    if (!plan)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("No PSWF plan specified");
+        return;
+    }
     sdp_Mem* out_ptr = out;
     if (out && size == 0)
     {
@@ -741,6 +754,7 @@ void sdp_pswf_generate(
                 SDP_MEM_DOUBLE, SDP_MEM_CPU, 1, shape, status
         );
         out_ptr = plan->pswf;
+        if (*status) return;
     }
     else
     {
@@ -789,6 +803,11 @@ void sdp_generate_pswf(
 {
     if (*status) return;
     sdp_Pswf* pswf = sdp_pswf_create(m, c);
+    if (!pswf)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        return;
+    }
     const int size = 0, end_correction = 0;
     sdp_pswf_generate(pswf, out, size, end_correction, status);
     sdp_pswf_free(pswf);
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
index 9d72536..ab5f423 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
@@ -133,6 +133,13 @@ void sdp_gridder_grid_correct_pswf(
     if (*status) return;
     sdp_Pswf* pswf_n = sdp_pswf_create(0, w_support * (M_PI / 2));
     sdp_Pswf* pswf_lm = sdp_pswf_create(0, support * (M_PI / 2));
+    if (!pswf_n || !pswf_lm)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        sdp_pswf_free(pswf_n);
+        sdp_pswf_free(pswf_lm);
+        return;
+    }
     sdp_pswf_generate(pswf_lm, 0, image_size, 1, status);
 
     // Apply grid correction for the appropriate data type.
-- 
2.43.0


From 8cf7e21fd853dde12f1be5f42ed19feb69755af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:30 +0000
Subject: [PATCH 28/40] fix: report failed allocations in FFT functions instead
 of throwing

---
 .../fourier_transforms/sdp_fft.cpp            | 48 ++++++++++++++++---
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
index 372e970..d06b885 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
@@ -4,6 +4,7 @@
 #include <complex>
 #include <cstdlib>
 #include <cstring>
+#include <new>
 
 #include "ska-sdp-func/fourier_transforms/sdp_fft.h"
 #include "ska-sdp-func/utility/sdp_device_wrapper.h"
@@ -722,6 +723,11 @@ void sdp_fft_create_native(
     if (!*status)
     {
         int64_t* shape = (int64_t*) calloc(num_dims, sizeof(int64_t));
+        if (!shape)
+        {
+            *status = SDP_ERR_MEM_ALLOC_FAILURE;
+            return;
+        }
         for (int f = 0; f < num_dims; f++)
         {
             shape[f] = sdp_mem_shape_dim(input, f);
@@ -822,9 +828,19 @@ sdp_Fft* sdp_fft_create(
     if (*status) return NULL;
 
     // Allocate space for a plan.
-    sdp_Fft* fft = new sdp_Fft();
-    fft->input = sdp_mem_create_alias(input);
-    fft->output = sdp_mem_create_alias(output);
+    sdp_Fft* fft = new (std::nothrow) sdp_Fft();
+    if (fft)
+    {
+        fft->input = sdp_mem_create_alias(input);
+        fft->output = sdp_mem_create_alias(output);
+    }
+    if (!fft || !fft->input || !fft->output)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        SDP_LOG_CRITICAL("Memory allocation failure");
+        sdp_fft_free(fft);
+        return NULL;
+    }
     fft->num_dims = num_dims_fft;
     fft->batch_size = 1;
     fft->is_forward = is_forward;
@@ -857,9 +873,19 @@ sdp_Fft* sdp_fft_create(
         );
 
 #elif defined(SDP_USE_POCKETFFT)
-        sdp_fft_create_pocketfft(fft, input, output, num_dims_fft, is_forward,
-                status
-        );
+        try
+        {
+            sdp_fft_create_pocketfft(fft, input, output, num_dims_fft,
+                    is_forward, status
+            );
+        }
+        catch (const std::bad_alloc&)
+        {
+            *status = SDP_ERR_MEM_ALLOC_FAILURE;
+            SDP_LOG_CRITICAL("Memory allocation failure");
+            sdp_fft_free(fft);
+            return NULL;
+        }
 
 #else
         sdp_fft_create_native(fft, input, output, num_dims_fft, is_forward,
@@ -910,7 +936,15 @@ void sdp_fft_exec(
 #ifdef SDP_HAVE_MKL
         sdp_fft_exec_mkl(fft, input, output, status);
 #elif defined(SDP_USE_POCKETFFT)
-        sdp_fft_exec_pocketfft(fft, input, output, status);
+        try
+        {
+            sdp_fft_exec_pocketfft(fft, input, output, status);
+        }
+        catch (const std::bad_alloc&)
+        {
+            *status = SDP_ERR_MEM_ALLOC_FAILURE;
+            SDP_LOG_CRITICAL("Memory allocation failure");
+        }
 #else
         sdp_fft_exec_native(fft, input, output, status);
 #endif
-- 
2.43.0


From ee1eefb2d5f63d658deb05a21fd08425510f1779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 29/40] fix: check both dimensions of the arrays in the 2D
 SwiFTly functions

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 5e41524..72ade97 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -417,6 +417,8 @@ void sdp_swiftly_add_to_subgrid_2d(
     sdp_mem_check_shape_dim(contribution, 1, xM_yN_size, status);
     sdp_MemViewCpu<std::complex<double>, 2> out;
     sdp_mem_check_and_view(subgrid_image_inout, &out, status);
+    sdp_mem_check_shape_dim(contribution, 0, xM_yN_size, status);
+    sdp_mem_check_shape_dim(subgrid_image_inout, 0, xM_size, status);
     sdp_mem_check_shape_dim(subgrid_image_inout, 1, xM_size, status);
     sdp_MemViewCpu<double, 1> Fn;
     sdp_mem_check_and_view(swiftly->Fn, &Fn, status);
@@ -938,6 +940,8 @@ void sdp_swiftly_extract_from_subgrid_2d(
     sdp_MemViewCpu<std::complex<double>, 2> contrib;
     sdp_mem_check_and_view(contribution_out, &contrib, status);
     sdp_mem_check_shape_dim(contribution_out, 1, xM_yN_size, status);
+    sdp_mem_check_shape_dim(subgrid_image, 0, xM_size, status);
+    sdp_mem_check_shape_dim(contribution_out, 0, xM_yN_size, status);
     sdp_MemViewCpu<double, 1> Fn;
     sdp_mem_check_and_view(swiftly->Fn, &Fn, status);
     if (*status) return;
-- 
2.43.0


From a3b82acc87f35f07d1b68638e071206c41909d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 30/40] fix: report failed allocations in SwiFTly functions
 instead of throwing

---
 .../fourier_transforms/sdp_swiftly.cpp        | 224 ++++++++----------
 1 file changed, 94 insertions(+), 130 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 72ade97..29df97a 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -1,3 +1,5 @@
+#include <new>
+
 #include "ska-sdp-func/utility/sdp_logging.h"
 #include "ska-sdp-func/utility/sdp_mem.h"
 #include "ska-sdp-func/utility/sdp_mem_view.h"
@@ -81,7 +83,7 @@ sdp_SwiFTly* sdp_swiftly_create(
             &yN_size,
             status
     );
-    if (*status) return NULL;
+    if (*status) { sdp_mem_free(Fb_mem); return NULL; }
     sdp_generate_pswf(0, W * (M_PI / 2), Fb_mem, status);
     if (*status) { sdp_mem_free(Fb_mem); return NULL; }
 
@@ -93,7 +95,12 @@ sdp_SwiFTly* sdp_swiftly_create(
             &xM_yN_size,
             status
     );
-    if (*status) { sdp_mem_free(Fb_mem); return NULL; }
+    if (*status)
+    {
+        sdp_mem_free(Fb_mem);
+        sdp_mem_free(Fn_mem);
+        return NULL;
+    }
 
     // Generate Fn
     const double* pswf = static_cast<double*>(sdp_mem_data(Fb_mem));
@@ -115,6 +122,13 @@ sdp_SwiFTly* sdp_swiftly_create(
     // Done
     sdp_SwiFTly* swiftly = static_cast<struct sdp_SwiFTly*>(
         malloc(sizeof(sdp_SwiFTly)));
+    if (!swiftly)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        sdp_mem_free(Fb_mem);
+        sdp_mem_free(Fn_mem);
+        return NULL;
+    }
     swiftly->image_size = image_size;
     swiftly->xM_size = xM_size;
     swiftly->yN_size = yN_size;
@@ -171,6 +185,40 @@ inline static int64_t mod_p(int64_t a, int64_t b)
 }
 
 
+template<typename T>
+static void fft_c2c(
+        const sdp_MemViewCpu<T, 2>& in,
+        const sdp_MemViewCpu<T, 2>& out,
+        int first_axis,
+        bool forward,
+        double factor,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    try
+    {
+        pocketfft::shape_t shape, axes;
+        pocketfft::stride_t stride_in, stride_out;
+        for (int i = 0; i < 2; i++)
+        {
+            shape.push_back(static_cast<size_t>(in.shape[i]));
+            stride_in.push_back(in.stride[i] * sizeof(T));
+            stride_out.push_back(out.stride[i] * sizeof(T));
+            if (i >= first_axis) axes.push_back(i);
+        }
+        pocketfft::c2c(shape, stride_in, stride_out, axes, forward,
+                in.ptr, out.ptr, factor
+        );
+    }
+    catch (const std::bad_alloc&)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        SDP_LOG_CRITICAL("Memory allocation failure");
+    }
+}
+
+
 void sdp_swiftly_prepare_facet(
         sdp_SwiFTly* swiftly,
         sdp_Mem* facet,
@@ -251,18 +299,7 @@ void sdp_swiftly_prepare_facet(
     }
 
     // Perform FFT(s)
-    const pocketfft::shape_t shape = {
-        static_cast<size_t>(bc0_size),
-        static_cast<size_t>(yN_size)
-    };
-    const ptrdiff_t cpx_size = sizeof(std::complex<double>);
-    const pocketfft::stride_t stride = {
-        out.stride[0] * cpx_size,
-        out.stride[1] * cpx_size
-    };
-    pocketfft::c2c(shape, stride, stride, { 1 }, pocketfft::BACKWARD,
-            out.ptr, out.ptr, 1. / yN_size
-    );
+    fft_c2c(out, out, 1, pocketfft::BACKWARD, 1. / yN_size, status);
 
     // missing shift will be corrected for in sdp_swiftly_extract_from_facet
 }
@@ -329,18 +366,7 @@ void sdp_swiftly_extract_from_facet(
     }
 
     // Perform FFT(s)
-    const pocketfft::shape_t shape = {
-        static_cast<size_t>(bc0_size),
-        static_cast<size_t>(xM_yN_size)
-    };
-    const ptrdiff_t cpx_size = sizeof(std::complex<double>);
-    const pocketfft::stride_t stride = {
-        out.stride[0] * cpx_size,
-        out.stride[1] * cpx_size
-    };
-    pocketfft::c2c(shape, stride, stride, { 1 }, pocketfft::FORWARD,
-            out.ptr, out.ptr, 1.
-    );
+    fft_c2c(out, out, 1, pocketfft::FORWARD, 1., status);
 }
 
 
@@ -516,25 +542,20 @@ void sdp_swiftly_finish_subgrid_inplace(
     sdp_Mem* tmp_mem = sdp_mem_create(SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU,
             2, sg.shape, status
     );
-    if (*status) return;
+    if (*status)
+    {
+        sdp_mem_free(tmp_mem);
+        return;
+    }
     sdp_MemViewCpu<std::complex<double>, 2> tmp;
     sdp_mem_check_and_view(tmp_mem, &tmp, status);
     assert(!*status);
-    const pocketfft::shape_t shape = {
-        static_cast<size_t>(bc0_size),
-        static_cast<size_t>(xM_size)
-    };
-    const ptrdiff_t cpx_size = sizeof(std::complex<double>);
-    const pocketfft::stride_t stride = {
-        sg.stride[0] * cpx_size,
-        sg.stride[1] * cpx_size
-    };
-    const pocketfft::stride_t stride2 = {
-        xM_size* cpx_size, cpx_size
-    };
-    pocketfft::c2c(shape, stride, stride2, { 1 }, pocketfft::BACKWARD,
-            sg.ptr, tmp.ptr, 1. / xM_size
-    );
+    fft_c2c(sg, tmp, 1, pocketfft::BACKWARD, 1. / xM_size, status);
+    if (*status)
+    {
+        sdp_mem_free(tmp_mem);
+        return;
+    }
 
     // Move back, applying the subgrid offset
     for (int64_t i0 = 0; i0 < bc0_size; i0++)
@@ -582,7 +603,11 @@ void sdp_swiftly_finish_subgrid(
     sdp_Mem* buf_mem = sdp_mem_create(SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU,
             2, sg_img.shape, status
     );
-    if (*status) return;
+    if (*status)
+    {
+        sdp_mem_free(buf_mem);
+        return;
+    }
     sdp_MemViewCpu<std::complex<double>, 2> buf;
     sdp_mem_check_and_view(buf_mem, &buf, status);
     assert(!*status);
@@ -599,18 +624,12 @@ void sdp_swiftly_finish_subgrid(
     }
 
     // Perform in-place FFT
-    const pocketfft::shape_t shape = {
-        static_cast<size_t>(bc0_size),
-        static_cast<size_t>(xM_size)
-    };
-    const ptrdiff_t cpx_size = sizeof(std::complex<double>);
-    const pocketfft::stride_t stride = {
-        buf.stride[0] * cpx_size,
-        buf.stride[1] * cpx_size
-    };
-    pocketfft::c2c(shape, stride, stride, { 1 }, pocketfft::BACKWARD,
-            buf.ptr, buf.ptr, 1. / xM_size
-    );
+    fft_c2c(buf, buf, 1, pocketfft::BACKWARD, 1. / xM_size, status);
+    if (*status)
+    {
+        sdp_mem_free(buf_mem);
+        return;
+    }
 
     // Move back portion we are interested in, applying the subgrid offset
     const int64_t xA_size = sdp_mem_shape_dim(subgrid_out, 1);
@@ -688,25 +707,20 @@ void sdp_swiftly_finish_subgrid_inplace_2d(
     sdp_Mem* tmp_mem = sdp_mem_create(SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU,
             2, sg.shape, status
     );
-    if (*status) return;
+    if (*status)
+    {
+        sdp_mem_free(tmp_mem);
+        return;
+    }
     sdp_MemViewCpu<std::complex<double>, 2> tmp;
     sdp_mem_check_and_view(tmp_mem, &tmp, status);
     assert(!*status);
-    const pocketfft::shape_t shape = {
-        static_cast<size_t>(xM_size),
-        static_cast<size_t>(xM_size)
-    };
-    const ptrdiff_t cpx_size = sizeof(std::complex<double>);
-    const pocketfft::stride_t stride = {
-        sg.stride[0] * cpx_size,
-        sg.stride[1] * cpx_size
-    };
-    const pocketfft::stride_t stride_tmp = {
-        xM_size* cpx_size, cpx_size
-    };
-    pocketfft::c2c(shape, stride, stride_tmp, { 0, 1 }, pocketfft::BACKWARD,
-            sg.ptr, tmp.ptr, 1. / xM_size / xM_size
-    );
+    fft_c2c(sg, tmp, 0, pocketfft::BACKWARD, 1. / xM_size / xM_size, status);
+    if (*status)
+    {
+        sdp_mem_free(tmp_mem);
+        return;
+    }
 
     // Add subgrid offset on output
     int64_t off = mod_p(subgrid_offset1 + xM_size / 2, xM_size);
@@ -747,18 +761,8 @@ void sdp_swiftly_prepare_subgrid_inplace(
     const int64_t bc0_size = sg.shape[0];
 
     // Perform FFT
-    const pocketfft::shape_t shape = {
-        static_cast<size_t>(bc0_size),
-        static_cast<size_t>(xM_size)
-    };
-    const ptrdiff_t cpx_size = sizeof(std::complex<double>);
-    const pocketfft::stride_t stride = {
-        sg.stride[0] * cpx_size,
-        sg.stride[1] * cpx_size
-    };
-    pocketfft::c2c(shape, stride, stride, { 1 }, pocketfft::FORWARD,
-            sg.ptr, sg.ptr, 1.
-    );
+    fft_c2c(sg, sg, 1, pocketfft::FORWARD, 1., status);
+    if (*status) return;
 
     // Perform shift for input and output. We use a phase ramp to do
     // all of this in-place - not sure whether that's truly the most
@@ -801,18 +805,8 @@ void sdp_swiftly_prepare_subgrid_inplace_2d(
     if (*status) return;
 
     // Perform FFT
-    const pocketfft::shape_t shape = {
-        static_cast<size_t>(xM_size),
-        static_cast<size_t>(xM_size)
-    };
-    const ptrdiff_t cpx_size = sizeof(std::complex<double>);
-    const pocketfft::stride_t stride = {
-        sg.stride[0] * cpx_size,
-        sg.stride[1] * cpx_size
-    };
-    pocketfft::c2c(shape, stride, stride, { 0, 1 }, pocketfft::FORWARD,
-            sg.ptr, sg.ptr, 1.
-    );
+    fft_c2c(sg, sg, 0, pocketfft::FORWARD, 1., status);
+    if (*status) return;
 
     // Perform shift for input and output. We use a phase ramp to do
     // all of this in-place - not sure whether that's truly the most
@@ -901,18 +895,7 @@ void sdp_swiftly_extract_from_subgrid(
     }
 
     // Perform FFT(s)
-    const pocketfft::shape_t shape = {
-        static_cast<size_t>(bc0_size),
-        static_cast<size_t>(xM_yN_size)
-    };
-    const ptrdiff_t cpx_size = sizeof(std::complex<double>);
-    const pocketfft::stride_t stride = {
-        contrib.stride[0] * cpx_size,
-        contrib.stride[1] * cpx_size
-    };
-    pocketfft::c2c(shape, stride, stride, { 1 }, pocketfft::BACKWARD,
-            contrib.ptr, contrib.ptr, 1. / xM_yN_size
-    );
+    fft_c2c(contrib, contrib, 1, pocketfft::BACKWARD, 1. / xM_yN_size, status);
 }
 
 
@@ -1006,17 +989,8 @@ void sdp_swiftly_extract_from_subgrid_2d(
     }
 
     // Perform FFT(s)
-    const pocketfft::shape_t shape = {
-        static_cast<size_t>(xM_yN_size),
-        static_cast<size_t>(xM_yN_size)
-    };
-    const ptrdiff_t cpx_size = sizeof(std::complex<double>);
-    const pocketfft::stride_t stride = {
-        contrib.stride[0] * cpx_size,
-        contrib.stride[1] * cpx_size
-    };
-    pocketfft::c2c(shape, stride, stride, { 0, 1 }, pocketfft::BACKWARD,
-            contrib.ptr, contrib.ptr, 1. / xM_yN_size / xM_yN_size
+    fft_c2c(contrib, contrib, 0, pocketfft::BACKWARD,
+            1. / xM_yN_size / xM_yN_size, status
     );
 }
 
@@ -1118,18 +1092,8 @@ void sdp_swiftly_finish_facet(
 
     // Perform FFT(s)
     const int64_t bc0_size = pfct.shape[0];
-    const pocketfft::shape_t shape = {
-        static_cast<size_t>(bc0_size),
-        static_cast<size_t>(yN_size)
-    };
-    const ptrdiff_t cpx_size = sizeof(std::complex<double>);
-    const pocketfft::stride_t stride = {
-        pfct.stride[0] * cpx_size,
-        pfct.stride[1] * cpx_size
-    };
-    pocketfft::c2c(shape, stride, stride, { 1 }, pocketfft::FORWARD,
-            pfct.ptr, pfct.ptr, 1.
-    );
+    fft_c2c(pfct, pfct, 1, pocketfft::FORWARD, 1., status);
+    if (*status) return;
 
     // We shift the facet centre to its correct global position modulo
     // yN_size (non-centered for FFT, i.e. apply ifftshift). Determine
-- 
2.43.0


From 0a103679d77aa2f6ee0c26f55f1db5d8653b6c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:03 +0000
Subject: [PATCH 31/40] fix: report failed allocations in convolution and
 deconvolution

---
 src/ska-sdp-func/clean/sdp_hogbom_clean.cpp   | 28 +++++---
 .../clean/sdp_ms_clean_cornwell.cpp           | 70 +++++++++++--------
 .../numeric_functions/sdp_fft_convolution.cpp | 67 ++++++++++--------
 3 files changed, 94 insertions(+), 71 deletions(-)

diff --git a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
index e30a947..3bdcfe1 100644
--- a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
+++ b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
@@ -160,16 +160,32 @@ static void sdp_hogbom_clean_cpu(
             cbeam_shape,
             status
     );
-    complex<T>* cbeam_ptr = (complex<T>*)sdp_mem_data(cbeam_mem);
     sdp_Mem* clean_comp_complex_mem = sdp_mem_create(complex_data_type,
             SDP_MEM_CPU,
             2,
             dirty_img_shape,
             status
     );
+    sdp_Mem* convolution_result_mem = sdp_mem_create(complex_data_type,
+            SDP_MEM_CPU,
+            2,
+            dirty_img_shape,
+            status
+    );
+    if (*status)
+    {
+        sdp_mem_ref_dec(cbeam_mem);
+        sdp_mem_ref_dec(clean_comp_complex_mem);
+        sdp_mem_ref_dec(convolution_result_mem);
+        return;
+    }
+    complex<T>* cbeam_ptr = (complex<T>*)sdp_mem_data(cbeam_mem);
     complex<T>* clean_comp_complex_ptr = (complex<T>*)sdp_mem_data(
             clean_comp_complex_mem
     );
+    complex<T>* convolution_result_ptr = (complex<T>*)sdp_mem_data(
+            convolution_result_mem
+    );
     sdp_mem_clear_contents(clean_comp_complex_mem, status);
 
     // set up some loop variables
@@ -240,16 +256,6 @@ static void sdp_hogbom_clean_cpu(
     }
 
     // convolve clean components with clean beam
-    sdp_Mem* convolution_result_mem = sdp_mem_create(complex_data_type,
-            SDP_MEM_CPU,
-            2,
-            dirty_img_shape,
-            status
-    );
-    complex<T>* convolution_result_ptr = (complex<T>*)sdp_mem_data(
-            convolution_result_mem
-    );
-
     sdp_fft_convolution(clean_comp_complex_mem,
             cbeam_mem,
             convolution_result_mem,
diff --git a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
index cf22b90..865d223 100755
--- a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
+++ b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
@@ -389,6 +389,44 @@ static void ms_clean_cornwell(
     int* y_per_scale_ptr = (int*)sdp_mem_data(y_per_scale_mem);
     sdp_mem_clear_contents(y_per_scale_mem, status);
 
+    sdp_Mem* convolution_result_mem = sdp_mem_create(complex_data_type,
+            SDP_MEM_CPU,
+            2,
+            dirty_img_shape,
+            status
+    );
+    complex<T>* convolution_result_ptr = (complex<T>*)sdp_mem_data(
+            convolution_result_mem
+    );
+
+    // release memory
+    const auto release_memory = [&]()
+    {
+        sdp_mem_ref_dec(psf_complex_mem);
+        sdp_mem_ref_dec(clean_comp_complex_mem);
+        sdp_mem_ref_dec(residual_complex_mem);
+        sdp_mem_ref_dec(cbeam_mem);
+        sdp_mem_ref_dec(cur_scaled_residual_mem);
+        sdp_mem_ref_dec(scaled_residuals_mem);
+        sdp_mem_ref_dec(scaled_psf_mem);
+        sdp_mem_ref_dec(cur_scaled_psf_mem);
+        sdp_mem_ref_dec(cur_scaled_psf_pre_mem);
+        sdp_mem_ref_dec(scale_kern_list_mem);
+        sdp_mem_ref_dec(cur_1_scale_kern_mem);
+        sdp_mem_ref_dec(cur_2_scale_kern_mem);
+        sdp_mem_ref_dec(coupling_matrix_mem);
+        sdp_mem_ref_dec(peak_per_scale_mem);
+        sdp_mem_ref_dec(index_per_scale_mem);
+        sdp_mem_ref_dec(x_per_scale_mem);
+        sdp_mem_ref_dec(y_per_scale_mem);
+        sdp_mem_ref_dec(convolution_result_mem);
+    };
+    if (*status)
+    {
+        release_memory();
+        return;
+    }
+
     // Convolution code only works with complex input, so make residual and psf complex
     sdp_create_copy_complex<T>(residual_ptr,
             dirty_img_size,
@@ -555,7 +593,7 @@ static void ms_clean_cornwell(
     int max_scale = 0;
 
     // CLEAN loop executes while the stop conditions (threashold and cycle limit) are not met
-    while (cur_cycle < cycle_limit)
+    while (!*status && cur_cycle < cycle_limit)
     {
         SDP_LOG_DEBUG("Current Cycle %d of %d", cur_cycle, cycle_limit);
 
@@ -702,16 +740,6 @@ static void ms_clean_cornwell(
     }
 
     // convolve clean components with clean beam
-    sdp_Mem* convolution_result_mem = sdp_mem_create(complex_data_type,
-            SDP_MEM_CPU,
-            2,
-            dirty_img_shape,
-            status
-    );
-    complex<T>* convolution_result_ptr = (complex<T>*)sdp_mem_data(
-            convolution_result_mem
-    );
-
     sdp_fft_convolution(clean_comp_complex_mem,
             cbeam_mem,
             convolution_result_mem,
@@ -748,25 +776,7 @@ static void ms_clean_cornwell(
         }
     }
 
-    // release memory
-    sdp_mem_ref_dec(psf_complex_mem);
-    sdp_mem_ref_dec(clean_comp_complex_mem);
-    sdp_mem_ref_dec(residual_complex_mem);
-    sdp_mem_ref_dec(cbeam_mem);
-    sdp_mem_ref_dec(cur_scaled_residual_mem);
-    sdp_mem_ref_dec(scaled_residuals_mem);
-    sdp_mem_ref_dec(scaled_psf_mem);
-    sdp_mem_ref_dec(cur_scaled_psf_mem);
-    sdp_mem_ref_dec(cur_scaled_psf_pre_mem);
-    sdp_mem_ref_dec(scale_kern_list_mem);
-    sdp_mem_ref_dec(cur_1_scale_kern_mem);
-    sdp_mem_ref_dec(cur_2_scale_kern_mem);
-    sdp_mem_ref_dec(coupling_matrix_mem);
-    sdp_mem_ref_dec(peak_per_scale_mem);
-    sdp_mem_ref_dec(index_per_scale_mem);
-    sdp_mem_ref_dec(x_per_scale_mem);
-    sdp_mem_ref_dec(y_per_scale_mem);
-    sdp_mem_ref_dec(convolution_result_mem);
+    release_memory();
 }
 
 
diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index 146607d..be6ec9d 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -147,15 +147,39 @@ static void sdp_fft_convolution_cpu(
     int64_t pad_shape[] = {pad_dim, pad_dim};
     int64_t pad_size = pad_dim * pad_dim;
 
-    // create memory to save padded input in1
+    // create memory to save padded inputs and for the
+    // frequency domain multiplication result
     sdp_Mem* in1_pad_mem = sdp_mem_create(data_type,
             SDP_MEM_CPU,
             2,
             pad_shape,
             status
     );
+    sdp_Mem* in2_pad_mem = sdp_mem_create(data_type,
+            SDP_MEM_CPU,
+            2,
+            pad_shape,
+            status
+    );
+    sdp_Mem* multiply_mem = sdp_mem_create(data_type,
+            SDP_MEM_CPU,
+            2,
+            pad_shape,
+            status
+    );
+    if (*status)
+    {
+        sdp_mem_ref_dec(in1_pad_mem);
+        sdp_mem_ref_dec(in2_pad_mem);
+        sdp_mem_ref_dec(multiply_mem);
+        return;
+    }
     complex<T>* in1_pad_ptr = (complex<T>*)sdp_mem_data(in1_pad_mem);
+    complex<T>* in2_pad_ptr = (complex<T>*)sdp_mem_data(in2_pad_mem);
+    complex<T>* multiply_ptr = (complex<T>*)sdp_mem_data(multiply_mem);
     sdp_mem_clear_contents(in1_pad_mem, status);
+    sdp_mem_clear_contents(in2_pad_mem, status);
+    sdp_mem_clear_contents(multiply_mem, status);
 
     // calculate the number of extra columns and rows need to reach padded length
     int64_t extra_in1 = (pad_dim - in1_dim) / 2;
@@ -165,16 +189,6 @@ static void sdp_fft_convolution_cpu(
             extra_in1, extra_in1, pad_dim
     );
 
-    // create memory to save padded input in2
-    sdp_Mem* in2_pad_mem = sdp_mem_create(data_type,
-            SDP_MEM_CPU,
-            2,
-            pad_shape,
-            status
-    );
-    complex<T>* in2_pad_ptr = (complex<T>*)sdp_mem_data(in2_pad_mem);
-    sdp_mem_clear_contents(in2_pad_mem, status);
-
     // calculate the number of extra columns and rows need to reach padded length
     int64_t extra_in2 = (pad_dim - in2_dim) / 2;
 
@@ -203,16 +217,6 @@ static void sdp_fft_convolution_cpu(
     sdp_fft_exec(in2_fft_plan, in2_pad_mem, in2_pad_mem, status);
     sdp_fft_free(in2_fft_plan);
 
-    // create variables for frequency domain multiplication result
-    sdp_Mem* multiply_mem = sdp_mem_create(data_type,
-            SDP_MEM_CPU,
-            2,
-            pad_shape,
-            status
-    );
-    complex<T>* multiply_ptr = (complex<T>*)sdp_mem_data(multiply_mem);
-    sdp_mem_clear_contents(multiply_mem, status);
-
     // multiply FFTs together
     for (int i = 0; i < pad_size; i++)
     {
@@ -233,15 +237,18 @@ static void sdp_fft_convolution_cpu(
     sdp_fft_shift_2d<T>(multiply_ptr, pad_dim, pad_dim);
 
     // remove padding from the convolved result
-    sdp_remove_padding_2d<T>(multiply_ptr,
-            out,
-            pad_dim,
-            pad_dim,
-            in1_dim,
-            in1_dim,
-            extra_in1,
-            extra_in1
-    );
+    if (!*status)
+    {
+        sdp_remove_padding_2d<T>(multiply_ptr,
+                out,
+                pad_dim,
+                pad_dim,
+                in1_dim,
+                in1_dim,
+                extra_in1,
+                extra_in1
+        );
+    }
 
     sdp_mem_ref_dec(in1_pad_mem);
     sdp_mem_ref_dec(in2_pad_mem);
-- 
2.43.0


From 45a20212f587e376f85b1cf6ddcd022d7cb72587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 32/40] fix: report failed allocations in the dynamic threshold
 flagger

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 68 ++++++++++++++-------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 3a4898e..7a461a5 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <complex>
 #include <math.h>
+#include <new>
 #include "src/ska-sdp-func/visibility/sdp_flagger.h"
 
 
@@ -89,17 +90,15 @@ static double median_calc(double* arr, int n)
 }
 
 
-static double median_dev_calc(double* arr, int n, double median)
+static double median_dev_calc(double* arr, int n, double median, double* devs)
 {
     int mid = std::min(int(round(0.5 * n)), n - 1);
-    double* devs = new double[n];
     for (int i = 0; i < n; i++)
     {
         devs[i] = abs(arr[i] - median);
     }
     qsort(devs, n, sizeof(double), compare);
     double medidev = devs[mid];
-    delete[] devs;
     return medidev;
 }
 
@@ -137,26 +136,44 @@ static void flagger_dynamic_threshold(
         const int num_timesamples,
         const int num_baselines,
         const int num_channels,
-        const int num_pols
+        const int num_pols,
+        sdp_Error* status
 )
 {
+    const int max_history = std::min(num_timesamples, window_median_history);
+    int num_failed = 0;
+
 #pragma omp parallel
 
     {
         int num_samples = num_channels / sampling_step;
-        double* samples = new double[num_samples];
-        double* transit_score = new double[num_channels];
-        double* transit_samples = new double[num_samples];
-        double* median_history = new double[num_timesamples];
-
-        filler(samples, 0, num_samples);
-        filler(transit_score, 0, num_channels);
-        filler(transit_samples, 0, num_samples);
-        filler(median_history, 0, num_timesamples);
+        double* samples = new (std::nothrow) double[num_samples];
+        double* transit_score = new (std::nothrow) double[num_channels];
+        double* transit_samples = new (std::nothrow) double[num_samples];
+        double* median_history = new (std::nothrow) double[num_timesamples];
+        double* medarray = new (std::nothrow) double[max_history];
+        double* devs = new (std::nothrow) double[
+            std::max(num_samples, max_history)];
+        const bool is_ok = samples && transit_score && transit_samples &&
+                median_history && medarray && devs;
+
+        if (is_ok)
+        {
+            filler(samples, 0, num_samples);
+            filler(transit_score, 0, num_channels);
+            filler(transit_samples, 0, num_samples);
+            filler(median_history, 0, num_timesamples);
+        }
+        else
+        {
+            #pragma omp atomic
+            num_failed++;
+        }
 
         #pragma omp for
         for (int b = 0; b < num_baselines; b++)
         {
+            if (!is_ok) continue;
             for (int p = 0; p < num_pols; p++)
             {
                 for (int t = 0; t < num_timesamples; t++)
@@ -167,7 +184,6 @@ static void flagger_dynamic_threshold(
                     int baseline_pos = t * time_block + b * baseline_block;
 
                     int medwindow = std::min(t + 1, window_median_history);
-                    double* medarray = new double[medwindow];
 
                     // method 1 only operating on absolute values
                     // and method 3 for broadband detection:
@@ -183,7 +199,8 @@ static void flagger_dynamic_threshold(
                     double median = median_calc(samples, num_samples);
                     double mediandev = median_dev_calc(samples,
                             num_samples,
-                            median
+                            median,
+                            devs
                     );
 
                     median_history[t] = median;
@@ -199,7 +216,8 @@ static void flagger_dynamic_threshold(
 
                     double medmeddev = median_dev_calc(medarray,
                             medwindow,
-                            medmed
+                            medmed,
+                            devs
                     );
                     double zscore_med = modified_zscore(medmed,
                             medmeddev,
@@ -247,8 +265,6 @@ static void flagger_dynamic_threshold(
                         }
                     }
 
-                    delete[] medarray;
-
                     // method 2 operating on rate of changes (fluctuations):
 
                     if (t > 0)
@@ -292,7 +308,8 @@ static void flagger_dynamic_threshold(
                         );
                         double mediandevvar = median_dev_calc(transit_samples,
                                 num_samples,
-                                median
+                                median,
+                                devs
                         );
 
                         for (int c = 0; c < num_channels; c++)
@@ -347,6 +364,13 @@ static void flagger_dynamic_threshold(
         delete[] samples;
         delete[] transit_samples;
         delete[] median_history;
+        delete[] medarray;
+        delete[] devs;
+    }
+    if (num_failed > 0)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        SDP_LOG_CRITICAL("Memory allocation failure");
     }
 }
 
@@ -390,7 +414,8 @@ void sdp_flagger_dynamic_threshold(
                     num_timesamples,
                     num_baselines,
                     num_channels,
-                    num_pols
+                    num_pols,
+                    status
             );
         }
         else if (sdp_mem_type(vis) == SDP_MEM_COMPLEX_DOUBLE &&
@@ -409,7 +434,8 @@ void sdp_flagger_dynamic_threshold(
                     num_timesamples,
                     num_baselines,
                     num_channels,
-                    num_pols
+                    num_pols,
+                    status
             );
         }
         else
-- 
2.43.0


From 0d4ef753e2be2ea13eb5d2169cb06049e8319edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 33/40] fix: refuse flagger parameters that leave nothing to
 sample

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 22 +++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 7a461a5..c4e7288 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -396,6 +396,28 @@ void sdp_flagger_dynamic_threshold(
     const int num_channels      = (int) sdp_mem_shape_dim(vis, 2);
     const int num_pols   = (int) sdp_mem_shape_dim(vis, 3);
 
+    for (int i = 0; i < 4; i++)
+    {
+        if (sdp_mem_shape_dim(vis, i) != sdp_mem_shape_dim(flags, i))
+        {
+            *status = SDP_ERR_INVALID_ARGUMENT;
+            SDP_LOG_ERROR("Visibility and flags arrays must have "
+                    "the same shape."
+            );
+            return;
+        }
+    }
+    if (sampling_step < 1 || sampling_step > num_channels ||
+            window_median_history < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The sampling step must be between 1 and the number "
+                "of channels, and the window of the median history "
+                "at least 1."
+        );
+        return;
+    }
+
     if (sdp_mem_location(vis) == SDP_MEM_CPU)
     {
         if (sdp_mem_type(vis) == SDP_MEM_COMPLEX_FLOAT &&
-- 
2.43.0


From 04b9bf27d3806a37ffac5026cf4ebee6cba0f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 34/40] fix: report failed allocations of sky coordinates,
 mutexes, station and example plans

---
 .../examples/sdp_function_example_a.cpp             | 13 +++++++++++++
 src/ska-sdp-func/station_beam/sdp_station.cpp       |  5 +++++
 src/ska-sdp-func/utility/sdp_sky_coord.c            |  6 ++++++
 src/ska-sdp-func/utility/sdp_thread_support.cpp     |  3 +++
 4 files changed, 27 insertions(+)

diff --git a/src/ska-sdp-func/examples/sdp_function_example_a.cpp b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
index cbc0709..4b7ffd1 100644
--- a/src/ska-sdp-func/examples/sdp_function_example_a.cpp
+++ b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
@@ -34,10 +34,23 @@ sdp_FunctionExampleA* sdp_function_example_a_create_plan(
     sdp_FunctionExampleA* plan = (sdp_FunctionExampleA*) calloc(
             1, sizeof(sdp_FunctionExampleA)
     );
+    if (!plan)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        SDP_LOG_CRITICAL("Memory allocation failure");
+        return NULL;
+    }
     plan->a = a;
     plan->b = b;
     plan->c = c;
     plan->workarea = (float*) calloc(a * b, sizeof(float));
+    if (!plan->workarea)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        SDP_LOG_CRITICAL("Memory allocation failure");
+        free(plan);
+        return NULL;
+    }
     SDP_LOG_INFO("Created sdp_FunctionExampleA");
     return plan;
 }
diff --git a/src/ska-sdp-func/station_beam/sdp_station.cpp b/src/ska-sdp-func/station_beam/sdp_station.cpp
index 0e9ea04..f659477 100644
--- a/src/ska-sdp-func/station_beam/sdp_station.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_station.cpp
@@ -30,6 +30,11 @@ sdp_Station* sdp_station_create(
 {
     if (*status) return NULL;
     sdp_Station* model = (sdp_Station*) calloc(1, sizeof(sdp_Station));
+    if (!model)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        return NULL;
+    }
     const int64_t shape[] = {(int64_t) num_elements};
     for (int i = 0 ; i < 3; ++i)
     {
diff --git a/src/ska-sdp-func/utility/sdp_sky_coord.c b/src/ska-sdp-func/utility/sdp_sky_coord.c
index 1189899..94ae65c 100644
--- a/src/ska-sdp-func/utility/sdp_sky_coord.c
+++ b/src/ska-sdp-func/utility/sdp_sky_coord.c
@@ -23,7 +23,13 @@ sdp_SkyCoord* sdp_sky_coord_create(
 {
     sdp_SkyCoord* sky_coord = (sdp_SkyCoord*) calloc(1, sizeof(sdp_SkyCoord));
     const size_t type_len = 1 + strlen(type);
+    if (!sky_coord) return 0;
     sky_coord->type = (char*) calloc(type_len, sizeof(char));
+    if (!sky_coord->type)
+    {
+        free(sky_coord);
+        return 0;
+    }
     memcpy(sky_coord->type, type, type_len);
     sky_coord->epoch = 2000.0; // Set default (this is only needed sometimes).
     sky_coord->coords[0] = coord0;
diff --git a/src/ska-sdp-func/utility/sdp_thread_support.cpp b/src/ska-sdp-func/utility/sdp_thread_support.cpp
index 3242d0b..db70a09 100644
--- a/src/ska-sdp-func/utility/sdp_thread_support.cpp
+++ b/src/ska-sdp-func/utility/sdp_thread_support.cpp
@@ -21,6 +21,7 @@ struct sdp_Mutex
 sdp_Mutex* sdp_mutex_create()
 {
     sdp_Mutex* mutex = (sdp_Mutex*) calloc(1, sizeof(sdp_Mutex));
+    if (!mutex) return 0;
 #ifdef _OPENMP
     omp_init_lock(&mutex->lock_);
 #endif
@@ -40,6 +41,7 @@ void sdp_mutex_free(sdp_Mutex* mutex)
 
 void sdp_mutex_lock(sdp_Mutex* mutex)
 {
+    if (!mutex) return;
 #ifdef _OPENMP
     omp_set_lock(&mutex->lock_);
 #endif
@@ -48,6 +50,7 @@ void sdp_mutex_lock(sdp_Mutex* mutex)
 
 void sdp_mutex_unlock(sdp_Mutex* mutex)
 {
+    if (!mutex) return;
 #ifdef _OPENMP
     omp_unset_lock(&mutex->lock_);
 #endif
-- 
2.43.0


From 5553fc66246cf0dd5f53d3b88a491ad68930c17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 35/40] fix: report failed allocations and earlier errors when
 creating gridder plans

---
 src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp    | 12 ++++++++++++
 .../grid_data/sdp_gridder_wtower_uvw.cpp             | 12 ++++++++++++
 src/ska-sdp-func/utility/sdp_mem.cpp                 |  5 +++++
 3 files changed, 29 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index 0c48cba..294c534 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -37,9 +37,16 @@ sdp_GridderDirect* sdp_gridder_direct_create(
         sdp_Error* status
 )
 {
+    if (*status) return NULL;
     sdp_GridderDirect* plan = (sdp_GridderDirect*)calloc(
             1, sizeof(sdp_GridderDirect)
     );
+    if (!plan)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        SDP_LOG_CRITICAL("Memory allocation failure");
+        return NULL;
+    }
     plan->image_size = image_size;
     plan->subgrid_size = subgrid_size;
     plan->theta = theta;
@@ -52,6 +59,11 @@ sdp_GridderDirect* sdp_gridder_direct_create(
             SDP_MEM_DOUBLE, SDP_MEM_CPU, 1, pswf_sg_shape, status
     );
     sdp_generate_pswf(0, support * (M_PI / 2), plan->pswf_sg, status);
+    if (*status)
+    {
+        sdp_gridder_direct_free(plan);
+        return NULL;
+    }
     ((double*)sdp_mem_data(plan->pswf_sg))[0] = 1e-15;
     return plan;
 }
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index 26cee24..031261f 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -671,6 +671,7 @@ sdp_GridderWtowerUVW* sdp_gridder_wtower_uvw_create(
         sdp_Error* status
 )
 {
+    if (*status) return NULL;
     if (subgrid_size % 2 != 0)
     {
         // If subgrid_size isn't even, the current FFT shift won't be correct.
@@ -683,6 +684,12 @@ sdp_GridderWtowerUVW* sdp_gridder_wtower_uvw_create(
     sdp_GridderWtowerUVW* plan = (sdp_GridderWtowerUVW*) calloc(
             1, sizeof(sdp_GridderWtowerUVW)
     );
+    if (!plan)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        SDP_LOG_CRITICAL("Memory allocation failure");
+        return NULL;
+    }
     plan->image_size = image_size;
     plan->subgrid_size = subgrid_size;
     plan->theta = theta;
@@ -718,6 +725,11 @@ sdp_GridderWtowerUVW* sdp_gridder_wtower_uvw_create(
     sdp_gridder_make_w_pattern(subgrid_size, theta,
             shear_u, shear_v, w_step, plan->w_pattern, status
     );
+    if (*status)
+    {
+        sdp_gridder_wtower_uvw_free(plan);
+        return NULL;
+    }
 
     return plan;
 }
diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 797f0a8..0c6c129 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -281,6 +281,11 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
         sdp_Error* status
 )
 {
+    if (!src)
+    {
+        if (!*status) *status = SDP_ERR_INVALID_ARGUMENT;
+        return 0;
+    }
     if (num_dims_slice > src->num_dims)
     {
         if (!*status) *status = SDP_ERR_INVALID_ARGUMENT;
-- 
2.43.0


From 8af569b9f90899a1cfb288d96e3f72ee672f83e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:34 +0000
Subject: [PATCH 36/40] fix: report failed allocations in w-stacking with
 w-towers and in timers

Also return an error instead of terminating the process when the visibility
count does not match, and restore the OpenMP nesting level afterwards.
---
 .../grid_data/sdp_grid_wstack_wtower.cpp      | 140 ++++++++++++++----
 src/ska-sdp-func/utility/sdp_timer.cpp        | 114 +++++++++++---
 2 files changed, 208 insertions(+), 46 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
index 5e77046..a7b7dcc 100644
--- a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
@@ -4,6 +4,7 @@
 #include <omp.h>
 #endif
 
+#include <exception>
 #include <inttypes.h>
 #include <vector>
 
@@ -62,14 +63,15 @@ struct sdp_SubgridTask
 };
 
 
-// Count visibilities in each sub-grid, create and return a list of tasks.
-vector<sdp_SubgridTask> count_visibilities(
+// Count visibilities in each sub-grid, and create a list of tasks.
+void count_visibilities(
         const sdp_Mem* uvw,
         const sdp_Mem* vis,
         const sdp_Mem* start_ch_w,
         const sdp_Mem* end_ch_w,
         vector<sdp_Mem*>& start_ch_uv,
         vector<sdp_Mem*>& end_ch_uv,
+        vector<sdp_SubgridTask>& tasks,
         double freq0_hz,
         double dfreq_hz,
         double eff_sg_dist,
@@ -83,6 +85,7 @@ vector<sdp_SubgridTask> count_visibilities(
         sdp_Error* status
 )
 {
+    if (*status) return;
     SDP_TMR_PUSH("Count visibilities");
     const int num_threads = (int) start_ch_uv.size();
     const int64_t num_rows = sdp_mem_shape_dim(vis, 0);
@@ -92,7 +95,17 @@ vector<sdp_SubgridTask> count_visibilities(
     );
     const int num_subgrids_u = int(1 + max_iu - min_iu);
     const int num_subgrids_v = int(1 + max_iv - min_iv);
-    vector<sdp_SubgridTask> tasks(num_subgrids_u * num_subgrids_v);
+    try
+    {
+        tasks.resize((size_t) num_subgrids_u * num_subgrids_v);
+    }
+    catch (const std::exception&)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        SDP_LOG_CRITICAL("Memory allocation failure");
+        SDP_TMR_POP;
+        return;
+    }
     sdp_Mutex* mutex = (verbosity > 1) ? sdp_mutex_create() : 0;
     #pragma omp parallel for num_threads(num_threads) collapse(2)
     for (int64_t iu = min_iu; iu <= max_iu; ++iu)
@@ -132,7 +145,6 @@ vector<sdp_SubgridTask> count_visibilities(
     }
     SDP_TMR_POP;
     sdp_mutex_free(mutex);
-    return tasks;
 }
 
 
@@ -167,7 +179,7 @@ sdp_SubgridTask pick_task(vector<sdp_SubgridTask>& subgrids, sdp_Mutex* mutex)
 
 // Report run parameters and timing data.
 void report_timing(
-        const vector<sdp_GridderWtowerUVW*> kernel,
+        const vector<sdp_GridderWtowerUVW*>& kernel,
         int verbosity,
         int gridding,
         int num_w_planes,
@@ -260,16 +272,49 @@ void sdp_grid_wstack_wtower_degrid_all(
     if (subgrid_frac == 0.0) subgrid_frac = 2.0 / 3.0;
     int max_threads = 1;
 #ifdef _OPENMP
-    omp_set_max_active_levels(1);
     max_threads = (loc == SDP_MEM_CPU) ? omp_get_max_threads() : 1;
 #endif
     if (num_threads <= 0) num_threads = max_threads;
 
+    // Allocate space for per-thread data.
+    vector<sdp_GridderWtowerUVW*> kernel;
+    vector<sdp_Mem*> subgrid;
+    vector<sdp_Fft*> ifft_subgrid;
+    vector<sdp_Mem*> start_ch_uv, end_ch_uv;
+    try
+    {
+        kernel.resize(num_threads, 0);
+        subgrid.resize(num_threads, 0);
+        ifft_subgrid.resize(num_threads, 0);
+        start_ch_uv.resize(num_threads, 0);
+        end_ch_uv.resize(num_threads, 0);
+    }
+    catch (const std::exception&)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        SDP_LOG_CRITICAL("Memory allocation failure");
+        return;
+    }
+
     // Set up timers.
     SDP_TMR_CREATE("Degridding",
             loc == SDP_MEM_CPU ? SDP_TIMER_NATIVE : SDP_TIMER_CUDA, num_threads
     );
-    SDP_TMR_CREATE_SET("Process sub-grid stack", num_threads);
+    if (!sdp_timers_create_set(
+            SDP_TMR_HANDLE, "Process sub-grid stack", num_threads, 0
+    ))
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        SDP_LOG_CRITICAL("Memory allocation failure");
+        SDP_TMR_FREE;
+        return;
+    }
+
+#ifdef _OPENMP
+    // Avoid nested parallelism in this function.
+    const int max_active_levels = omp_get_max_active_levels();
+    omp_set_max_active_levels(1);
+#endif
 
     // Assume we're using all visibilities.
     const int64_t num_rows = sdp_mem_shape_dim(vis, 0);
@@ -283,10 +328,6 @@ void sdp_grid_wstack_wtower_degrid_all(
     sdp_mem_set_value(end_ch, (int) num_chan, status);
 
     // Create gridder kernels, sub-grids and sub-grid FFT plans, per thread.
-    vector<sdp_GridderWtowerUVW*> kernel(num_threads, 0);
-    vector<sdp_Mem*> subgrid(num_threads, 0);
-    vector<sdp_Fft*> ifft_subgrid(num_threads, 0);
-    vector<sdp_Mem*> start_ch_uv(num_threads, 0), end_ch_uv(num_threads, 0);
     const int image_size = (int) sdp_mem_shape_dim(image, 0);
     const int64_t grid_shape[] = {image_size, image_size};
     const int64_t subgrid_shape[] = {subgrid_size, subgrid_size};
@@ -376,14 +417,20 @@ void sdp_grid_wstack_wtower_degrid_all(
         SDP_TMR_POP;
 
         // Count visibilities in each sub-grid and create tasks.
-        vector<sdp_SubgridTask> tasks = count_visibilities(
-                uvw, vis, start_ch_w, end_ch_w, start_ch_uv, end_ch_uv,
+        vector<sdp_SubgridTask> tasks;
+        count_visibilities(
+                uvw, vis, start_ch_w, end_ch_w, start_ch_uv, end_ch_uv, tasks,
                 freq0_hz, dfreq_hz, eff_sg_dist, min_iu, max_iu, min_iv, max_iv,
                 iw, verbosity, SDP_TMR_HANDLE, status
         );
 
         // Start a parallel region to process all tasks.
         sdp_Mutex* mutex = sdp_mutex_create();
+        if (!mutex && !*status)
+        {
+            *status = SDP_ERR_MEM_ALLOC_FAILURE;
+            SDP_LOG_CRITICAL("Memory allocation failure");
+        }
         int64_t vis_count_check = 0;
         #pragma omp parallel num_threads(num_threads)
         {
@@ -439,13 +486,14 @@ void sdp_grid_wstack_wtower_degrid_all(
             }
         }
         sdp_mutex_free(mutex);
-        if (vis_count_check != num_vis)
+        if (!*status && vis_count_check != num_vis)
         {
+            *status = SDP_ERR_RUNTIME;
             SDP_LOG_CRITICAL("Processed %d but expected %d visibilities",
                     (int) vis_count_check, (int) num_vis
             );
-            exit(1);
         }
+        if (*status) break;
     }
 
     // Report timing.
@@ -469,6 +517,9 @@ void sdp_grid_wstack_wtower_degrid_all(
     sdp_mem_free(start_ch_w);
     sdp_mem_free(end_ch_w);
     SDP_TMR_FREE;
+#ifdef _OPENMP
+    omp_set_max_active_levels(max_active_levels);
+#endif
 }
 
 
@@ -517,16 +568,49 @@ void sdp_grid_wstack_wtower_grid_all(
     if (subgrid_frac == 0.0) subgrid_frac = 2.0 / 3.0;
     int max_threads = 1;
 #ifdef _OPENMP
-    omp_set_max_active_levels(1);
     max_threads = (loc == SDP_MEM_CPU) ? omp_get_max_threads() : 1;
 #endif
     if (num_threads <= 0) num_threads = max_threads;
 
+    // Allocate space for per-thread data.
+    vector<sdp_GridderWtowerUVW*> kernel;
+    vector<sdp_Mem*> subgrid;
+    vector<sdp_Fft*> fft_subgrid;
+    vector<sdp_Mem*> start_ch_uv, end_ch_uv;
+    try
+    {
+        kernel.resize(num_threads, 0);
+        subgrid.resize(num_threads, 0);
+        fft_subgrid.resize(num_threads, 0);
+        start_ch_uv.resize(num_threads, 0);
+        end_ch_uv.resize(num_threads, 0);
+    }
+    catch (const std::exception&)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        SDP_LOG_CRITICAL("Memory allocation failure");
+        return;
+    }
+
     // Set up timers.
     SDP_TMR_CREATE("Gridding",
             loc == SDP_MEM_CPU ? SDP_TIMER_NATIVE : SDP_TIMER_CUDA, num_threads
     );
-    SDP_TMR_CREATE_SET("Process sub-grid stack", num_threads);
+    if (!sdp_timers_create_set(
+            SDP_TMR_HANDLE, "Process sub-grid stack", num_threads, 0
+    ))
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        SDP_LOG_CRITICAL("Memory allocation failure");
+        SDP_TMR_FREE;
+        return;
+    }
+
+#ifdef _OPENMP
+    // Avoid nested parallelism in this function.
+    const int max_active_levels = omp_get_max_active_levels();
+    omp_set_max_active_levels(1);
+#endif
 
     // Assume we're using all visibilities.
     const int64_t num_rows = sdp_mem_shape_dim(vis, 0);
@@ -540,10 +624,6 @@ void sdp_grid_wstack_wtower_grid_all(
     sdp_mem_set_value(end_ch, (int) num_chan, status);
 
     // Create gridder kernels, sub-grids and sub-grid FFT plans, per thread.
-    vector<sdp_GridderWtowerUVW*> kernel(num_threads, 0);
-    vector<sdp_Mem*> subgrid(num_threads, 0);
-    vector<sdp_Fft*> fft_subgrid(num_threads, 0);
-    vector<sdp_Mem*> start_ch_uv(num_threads, 0), end_ch_uv(num_threads, 0);
     const int image_size = (int) sdp_mem_shape_dim(image, 0);
     const int64_t grid_shape[] = {image_size, image_size};
     const int64_t subgrid_shape[] = {subgrid_size, subgrid_size};
@@ -626,14 +706,20 @@ void sdp_grid_wstack_wtower_grid_all(
         SDP_TMR_POP;
 
         // Count visibilities in each sub-grid and create tasks.
-        vector<sdp_SubgridTask> tasks = count_visibilities(
-                uvw, vis, start_ch_w, end_ch_w, start_ch_uv, end_ch_uv,
+        vector<sdp_SubgridTask> tasks;
+        count_visibilities(
+                uvw, vis, start_ch_w, end_ch_w, start_ch_uv, end_ch_uv, tasks,
                 freq0_hz, dfreq_hz, eff_sg_dist, min_iu, max_iu, min_iv, max_iv,
                 iw, verbosity, SDP_TMR_HANDLE, status
         );
 
         // Start a parallel region to process all tasks.
         sdp_Mutex* mutex = sdp_mutex_create();
+        if (!mutex && !*status)
+        {
+            *status = SDP_ERR_MEM_ALLOC_FAILURE;
+            SDP_LOG_CRITICAL("Memory allocation failure");
+        }
         int64_t vis_count_check = 0;
         #pragma omp parallel num_threads(num_threads)
         {
@@ -691,13 +777,14 @@ void sdp_grid_wstack_wtower_grid_all(
             }
         }
         sdp_mutex_free(mutex);
-        if (vis_count_check != num_vis)
+        if (!*status && vis_count_check != num_vis)
         {
+            *status = SDP_ERR_RUNTIME;
             SDP_LOG_CRITICAL("Processed %d but expected %d visibilities",
                     (int) vis_count_check, (int) num_vis
             );
-            exit(1);
         }
+        if (*status) break;
 
         // Do image correction / w-stacking.
         // image += kernel.grid_correct(ifft(grid), 0, 0, iw * w_tower_height)
@@ -733,4 +820,7 @@ void sdp_grid_wstack_wtower_grid_all(
     sdp_mem_free(start_ch_w);
     sdp_mem_free(end_ch_w);
     SDP_TMR_FREE;
+#ifdef _OPENMP
+    omp_set_max_active_levels(max_active_levels);
+#endif
 }
diff --git a/src/ska-sdp-func/utility/sdp_timer.cpp b/src/ska-sdp-func/utility/sdp_timer.cpp
index e40cf8b..5baf29e 100644
--- a/src/ska-sdp-func/utility/sdp_timer.cpp
+++ b/src/ska-sdp-func/utility/sdp_timer.cpp
@@ -5,6 +5,7 @@
 #include <cstdlib>
 #include <ctime>
 #include <map>
+#include <new>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -71,6 +72,7 @@ sdp_Timer* sdp_timer_create(sdp_TimerType type)
     LARGE_INTEGER freq;
 #endif
     timer = (sdp_Timer*) calloc(1, sizeof(sdp_Timer));
+    if (!timer) return 0;
 #ifdef SDP_OS_WIN
     QueryPerformanceFrequency(&freq);
     timer->freq = (double)(freq.QuadPart);
@@ -104,6 +106,8 @@ void sdp_timer_free(sdp_Timer* timer)
 
 double sdp_timer_elapsed(sdp_Timer* timer)
 {
+    if (!timer) return 0.0;
+
     /* If timer is paused, return immediately with current elapsed time. */
     if (timer->paused) return timer->elapsed;
 
@@ -134,7 +138,7 @@ double sdp_timer_elapsed(sdp_Timer* timer)
 
 void sdp_timer_pause(sdp_Timer* timer)
 {
-    if (timer->paused) return;
+    if (!timer || timer->paused) return;
     (void)sdp_timer_elapsed(timer);
     timer->paused = 1;
 }
@@ -142,6 +146,7 @@ void sdp_timer_pause(sdp_Timer* timer)
 
 void sdp_timer_reset(sdp_Timer* timer)
 {
+    if (!timer) return;
     timer->paused = 1;
     timer->start = 0.0;
     timer->elapsed = 0.0;
@@ -150,13 +155,14 @@ void sdp_timer_reset(sdp_Timer* timer)
 
 void sdp_timer_resume(sdp_Timer* timer)
 {
-    if (!timer->paused) return;
+    if (!timer || !timer->paused) return;
     sdp_timer_restart(timer);
 }
 
 
 void sdp_timer_restart(sdp_Timer* timer)
 {
+    if (!timer) return;
     timer->paused = 0;
 #ifdef SDP_HAVE_CUDA
     if (timer->type == SDP_TIMER_CUDA)
@@ -171,6 +177,7 @@ void sdp_timer_restart(sdp_Timer* timer)
 
 void sdp_timer_start(sdp_Timer* timer)
 {
+    if (!timer) return;
     timer->elapsed = 0.0;
     sdp_timer_restart(timer);
 }
@@ -235,6 +242,7 @@ struct sdp_TimerNode
     // Get the maximum elapsed time from the set of timers in the node.
     static double get_max_time(const sdp_TimerNode* node)
     {
+        if (node->tmr.empty()) return 0.0;
         vector<double> time(node->tmr.size());
         for (size_t i = 0; i < time.size(); ++i)
         {
@@ -316,13 +324,15 @@ struct sdp_Timers
     sdp_TimerNode* root_node;
     sdp_TimerNode* current_node;
 
+    // Stand-in for timer nodes which could not be created
+    // (the times for these are not recorded), and the number of
+    // these which are currently on the stack below the current node.
+    sdp_TimerNode missing_node;
+    int num_missing;
+
     sdp_Timers(const string& name, sdp_TimerType type) :
-        name(name), type(type), root_node(0), current_node(0)
+        name(name), type(type), root_node(0), current_node(0), num_missing(0)
     {
-        current_node = root_node = new sdp_TimerNode;
-        root_node->tmr.resize(1);
-        root_node->tmr[0] = sdp_timer_create(type);
-        sdp_timer_resume(root_node->tmr[0]);
     }
 
     ~sdp_Timers()
@@ -340,9 +350,31 @@ sdp_Timers* sdp_timers_create(
 {
     char buf[20];
     std::snprintf(buf, 20, "%d", num_threads);
-    string str = string(name) + string(", ") + string(buf) + string(" thread");
-    if (num_threads > 1) str += string("s");
-    return new sdp_Timers(str, type);
+    sdp_Timers* timers = 0;
+    try
+    {
+        string str = (
+            string(name) + string(", ") + string(buf) + string(" thread")
+        );
+        if (num_threads > 1) str += string("s");
+        timers = new sdp_Timers(str, type);
+        timers->root_node = new sdp_TimerNode;
+        timers->current_node = timers->root_node;
+        timers->root_node->tmr.resize(1, NULL);
+    }
+    catch (const std::bad_alloc&)
+    {
+        delete timers;
+        return NULL;
+    }
+    timers->root_node->tmr[0] = sdp_timer_create(type);
+    if (!timers->root_node->tmr[0])
+    {
+        delete timers;
+        return NULL;
+    }
+    sdp_timer_resume(timers->root_node->tmr[0]);
+    return timers;
 }
 
 
@@ -359,11 +391,19 @@ sdp_TimerNode* sdp_timers_create_set(
         sdp_TimerNode* parent
 )
 {
-    sdp_TimerNode* node = sdp_TimerNode::get(
-            name, parent ? parent : timers->current_node
-    );
-    if (node->tmr.size() == 0) node->tmr.resize(num, NULL);
-    return node;
+    if (!timers) return NULL;
+    try
+    {
+        sdp_TimerNode* node = sdp_TimerNode::get(
+                name, parent ? parent : timers->current_node
+        );
+        if (node->tmr.size() == 0) node->tmr.resize(num, NULL);
+        return node;
+    }
+    catch (const std::bad_alloc&)
+    {
+        return NULL;
+    }
 }
 
 
@@ -373,6 +413,13 @@ sdp_TimerNode* sdp_timers_pop(
         sdp_TimerNode* timer
 )
 {
+    if (!timers) return NULL;
+    if (timer == &timers->missing_node) return timer;
+    if (!timer && timers->num_missing > 0)
+    {
+        timers->num_missing--;
+        return NULL;
+    }
     sdp_TimerNode* node = timer ? timer : timers->current_node;
     if (node == timers->root_node) return timer ? node : NULL;
     sdp_timer_pause(node->tmr[idx]);
@@ -400,10 +447,27 @@ sdp_TimerNode* sdp_timers_push(
         sdp_TimerNode* parent
 )
 {
-    sdp_TimerNode* node = sdp_TimerNode::get(
-            name, parent ? parent : timers->current_node
-    );
-    if (node->tmr.size() == 0) node->tmr.resize(1, NULL);
+    if (!timers) return NULL;
+    if (parent == &timers->missing_node) return parent;
+    if (!parent && timers->num_missing > 0)
+    {
+        timers->num_missing++;
+        return NULL;
+    }
+    sdp_TimerNode* node = 0;
+    try
+    {
+        node = sdp_TimerNode::get(
+                name, parent ? parent : timers->current_node
+        );
+        if (node->tmr.size() == 0) node->tmr.resize(1, NULL);
+    }
+    catch (const std::bad_alloc&)
+    {
+        if (parent) return &timers->missing_node;
+        timers->num_missing++;
+        return NULL;
+    }
     if (!node->tmr[idx]) node->tmr[idx] = sdp_timer_create(timers->type);
     sdp_timer_resume(node->tmr[idx]);
     if (!parent) timers->current_node = node;
@@ -418,11 +482,19 @@ void sdp_timers_report(
         int line
 )
 {
-    timers->root_node->report(timers->name, 0, func, file, line);
+    if (!timers) return;
+    try
+    {
+        timers->root_node->report(timers->name, 0, func, file, line);
+    }
+    catch (const std::bad_alloc&)
+    {
+        SDP_LOG_WARNING("Timing report incomplete: memory allocation failure");
+    }
 }
 
 
 sdp_TimerNode* sdp_timers_root(sdp_Timers* timers)
 {
-    return timers->root_node;
+    return timers ? timers->root_node : NULL;
 }
-- 
2.43.0


From 32fd93fc5b5185def7c9dc7a14663d7ca4794b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 37/40] Restore the example as it was: examples are not to be
 changed here

---
 .../examples/sdp_function_example_a.cpp         | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/ska-sdp-func/examples/sdp_function_example_a.cpp b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
index 4b7ffd1..14c0fc7 100644
--- a/src/ska-sdp-func/examples/sdp_function_example_a.cpp
+++ b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
@@ -34,23 +34,10 @@ sdp_FunctionExampleA* sdp_function_example_a_create_plan(
     sdp_FunctionExampleA* plan = (sdp_FunctionExampleA*) calloc(
             1, sizeof(sdp_FunctionExampleA)
     );
-    if (!plan)
-    {
-        *status = SDP_ERR_MEM_ALLOC_FAILURE;
-        SDP_LOG_CRITICAL("Memory allocation failure");
-        return NULL;
-    }
     plan->a = a;
     plan->b = b;
     plan->c = c;
     plan->workarea = (float*) calloc(a * b, sizeof(float));
-    if (!plan->workarea)
-    {
-        *status = SDP_ERR_MEM_ALLOC_FAILURE;
-        SDP_LOG_CRITICAL("Memory allocation failure");
-        free(plan);
-        return NULL;
-    }
     SDP_LOG_INFO("Created sdp_FunctionExampleA");
     return plan;
 }
@@ -81,8 +68,8 @@ void sdp_function_example_a_exec(
         SDP_LOG_ERROR("Output is not writable");
         return;
     }
-    const int64_t num_elements = (int64_t) plan->a * plan->b;
-    if (sdp_mem_num_elements(output) < num_elements)
+    const int64_t num_elements = sdp_mem_num_elements(output);
+    if (num_elements < (plan->a * plan->b))
     {
         *status = SDP_ERR_RUNTIME;
         SDP_LOG_ERROR("Output is not big enough");
-- 
2.43.0


From e67e3e2c76fcd6dcaab401a43d0fccd6eaadc9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:54 +0000
Subject: [PATCH 38/40] fix: weighting functions wrote outside the grid for
 visibilities below its lower edges

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 18 ++++++++++++++----
 src/ska-sdp-func/visibility/sdp_weighting.cu  | 12 ++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index c8e4788..ca2f256 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -50,7 +50,11 @@ static void weights_grid_write(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u >= grid_size || idx_v >= grid_size) continue;
+                if (idx_u < 0 || idx_u >= grid_size ||
+                        idx_v < 0 || idx_v >= grid_size)
+                {
+                    continue;
+                }
                 const int64_t i_pol_s = INDEX_3D(
                         grid_size,
                         grid_size,
@@ -110,7 +114,11 @@ static void sum_weights_calc(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u >= grid_size || idx_v >= grid_size) continue;
+                if (idx_u < 0 || idx_u >= grid_size ||
+                        idx_v < 0 || idx_v >= grid_size)
+                {
+                    continue;
+                }
                 const int64_t i_pol_s = INDEX_3D(
                         grid_size,
                         grid_size,
@@ -181,7 +189,8 @@ static void uniform_weights_grid_read(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u < grid_size && idx_v < grid_size)
+                if (idx_u >= 0 && idx_u < grid_size &&
+                        idx_v >= 0 && idx_v < grid_size)
                 {
                     const int64_t i_pol_s = INDEX_3D(
                             grid_size,
@@ -245,7 +254,8 @@ static void briggs_weights_grid_read(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u < grid_size && idx_v < grid_size)
+                if (idx_u >= 0 && idx_u < grid_size &&
+                        idx_v >= 0 && idx_v < grid_size)
                 {
                     const int64_t i_pol_s = INDEX_3D(
                             grid_size,
diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cu b/src/ska-sdp-func/visibility/sdp_weighting.cu
index 9f529ad..9e7cb99 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cu
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cu
@@ -57,7 +57,8 @@ __global__ void grid_write_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size &&
+            idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
@@ -138,7 +139,8 @@ __global__ void calc_sum_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size &&
+            idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
@@ -207,7 +209,8 @@ __global__ void grid_briggs_read_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size &&
+            idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
@@ -282,7 +285,8 @@ __global__ void grid_uniform_read_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size &&
+            idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
-- 
2.43.0


From d93f3c7adfb50ca832f2d828a46d2c39994565de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:01 +0000
Subject: [PATCH 39/40] fix: w-tower kernels read and wrote outside the
 sub-grid for visibilities near its edges

---
 .../grid_data/sdp_gridder_wtower_uvw.cpp      | 48 +++++++++++++------
 .../grid_data/sdp_gridder_wtower_uvw.cu       | 48 +++++++++++++------
 2 files changed, 68 insertions(+), 28 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index 031261f..7daf60f 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -81,6 +81,9 @@ void degrid(
     const double theta_ov = theta * oversample;
     const double w_step_ov = 1.0 / w_step * w_oversample;
     const int half_sg_size_ov = (half_subgrid - support / 2 + 1) * oversample;
+    const int max_sg_size_ov = (
+        (plan->subgrid_size - support + 1) * oversample - half_sg_size_ov
+    );
 
     // Loop over rows. Each row contains visibilities for all channels.
     #pragma omp parallel for schedule(dynamic, 500)
@@ -109,13 +112,20 @@ void degrid(
         uvw0[1] -= subgrid_offset_v / theta;
         uvw0[2] -= ((subgrid_offset_w + w_plane - 1) * w_step);
 
-        // Bounds check.
-        const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-        const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-        const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-        const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-        if (u_min < -half_subgrid || u_max >= half_subgrid ||
-                v_min < -half_subgrid || v_max >= half_subgrid)
+        // Bounds check: The kernel must fit inside the subgrid
+        // at both ends of the channel range.
+        const double u_start = uvw0[0] + start_ch * duvw[0];
+        const double u_end = uvw0[0] + (end_ch - 1) * duvw[0];
+        const double v_start = uvw0[1] + start_ch * duvw[1];
+        const double v_end = uvw0[1] + (end_ch - 1) * duvw[1];
+        if (!(round(u_start * theta_ov) >= -half_sg_size_ov &&
+                round(u_start * theta_ov) < max_sg_size_ov &&
+                round(u_end * theta_ov) >= -half_sg_size_ov &&
+                round(u_end * theta_ov) < max_sg_size_ov &&
+                round(v_start * theta_ov) >= -half_sg_size_ov &&
+                round(v_start * theta_ov) < max_sg_size_ov &&
+                round(v_end * theta_ov) >= -half_sg_size_ov &&
+                round(v_end * theta_ov) < max_sg_size_ov))
         {
             continue;
         }
@@ -388,6 +398,9 @@ void grid(
     const double theta_ov = theta * oversample;
     const double w_step_ov = 1.0 / w_step * w_oversample;
     const int half_sg_size_ov = (half_subgrid - support / 2 + 1) * oversample;
+    const int max_sg_size_ov = (
+        (plan->subgrid_size - support + 1) * oversample - half_sg_size_ov
+    );
 
     // Loop over rows. Each row contains visibilities for all channels.
     for (int64_t i_row = start_row; i_row < end_row; ++i_row)
@@ -415,13 +428,20 @@ void grid(
         uvw0[1] -= subgrid_offset_v / theta;
         uvw0[2] -= ((subgrid_offset_w + w_plane - 1) * w_step);
 
-        // Bounds check.
-        const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-        const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-        const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-        const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-        if (u_min < -half_subgrid || u_max >= half_subgrid ||
-                v_min < -half_subgrid || v_max >= half_subgrid)
+        // Bounds check: The kernel must fit inside the subgrid
+        // at both ends of the channel range.
+        const double u_start = uvw0[0] + start_ch * duvw[0];
+        const double u_end = uvw0[0] + (end_ch - 1) * duvw[0];
+        const double v_start = uvw0[1] + start_ch * duvw[1];
+        const double v_end = uvw0[1] + (end_ch - 1) * duvw[1];
+        if (!(round(u_start * theta_ov) >= -half_sg_size_ov &&
+                round(u_start * theta_ov) < max_sg_size_ov &&
+                round(u_end * theta_ov) >= -half_sg_size_ov &&
+                round(u_end * theta_ov) < max_sg_size_ov &&
+                round(v_start * theta_ov) >= -half_sg_size_ov &&
+                round(v_start * theta_ov) < max_sg_size_ov &&
+                round(v_end * theta_ov) >= -half_sg_size_ov &&
+                round(v_end * theta_ov) < max_sg_size_ov))
         {
             continue;
         }
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
index 985b9bb..5958d48 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
@@ -67,14 +67,24 @@ __global__ void sdp_gridder_wtower_degrid(
     const double theta_ov = theta * oversample;
     const double w_step_ov = 1.0 / w_step * w_oversample;
     const int half_sg_size_ov = (half_subgrid - support / 2 + 1) * oversample;
+    const int max_sg_size_ov = (
+        (subgrid_size - support + 1) * oversample - half_sg_size_ov
+    );
 
-    // Bounds check.
-    const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-    const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-    const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-    const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-    if (u_min < -half_subgrid || u_max >= half_subgrid ||
-            v_min < -half_subgrid || v_max >= half_subgrid)
+    // Bounds check: The kernel must fit inside the subgrid
+    // at both ends of the channel range.
+    const double u_start = uvw0[0] + start_ch * duvw[0];
+    const double u_end = uvw0[0] + (end_ch - 1) * duvw[0];
+    const double v_start = uvw0[1] + start_ch * duvw[1];
+    const double v_end = uvw0[1] + (end_ch - 1) * duvw[1];
+    if (!(round(u_start * theta_ov) >= -half_sg_size_ov &&
+            round(u_start * theta_ov) < max_sg_size_ov &&
+            round(u_end * theta_ov) >= -half_sg_size_ov &&
+            round(u_end * theta_ov) < max_sg_size_ov &&
+            round(v_start * theta_ov) >= -half_sg_size_ov &&
+            round(v_start * theta_ov) < max_sg_size_ov &&
+            round(v_end * theta_ov) >= -half_sg_size_ov &&
+            round(v_end * theta_ov) < max_sg_size_ov))
     {
         return;
     }
@@ -182,14 +192,24 @@ __global__ void sdp_gridder_wtower_grid(
     const double theta_ov = theta * oversample;
     const double w_step_ov = 1.0 / w_step * w_oversample;
     const int half_sg_size_ov = (half_subgrid - support / 2 + 1) * oversample;
+    const int max_sg_size_ov = (
+        (subgrid_size - support + 1) * oversample - half_sg_size_ov
+    );
 
-    // Bounds check.
-    const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-    const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-    const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-    const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-    if (u_min < -half_subgrid || u_max >= half_subgrid ||
-            v_min < -half_subgrid || v_max >= half_subgrid)
+    // Bounds check: The kernel must fit inside the subgrid
+    // at both ends of the channel range.
+    const double u_start = uvw0[0] + start_ch * duvw[0];
+    const double u_end = uvw0[0] + (end_ch - 1) * duvw[0];
+    const double v_start = uvw0[1] + start_ch * duvw[1];
+    const double v_end = uvw0[1] + (end_ch - 1) * duvw[1];
+    if (!(round(u_start * theta_ov) >= -half_sg_size_ov &&
+            round(u_start * theta_ov) < max_sg_size_ov &&
+            round(u_end * theta_ov) >= -half_sg_size_ov &&
+            round(u_end * theta_ov) < max_sg_size_ov &&
+            round(v_start * theta_ov) >= -half_sg_size_ov &&
+            round(v_start * theta_ov) < max_sg_size_ov &&
+            round(v_end * theta_ov) >= -half_sg_size_ov &&
+            round(v_end * theta_ov) < max_sg_size_ov))
     {
         return;
     }
-- 
2.43.0


From c57aea916acbd374c0823f1766ee2fd89897e3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:27 +0000
Subject: [PATCH 40/40] fix: report failed allocations when creating a
 uvw_es_fft gridder plan

---
 .../grid_data/sdp_gridder_uvw_es_fft.cpp      | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp
index dd94786..7377ab2 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp
@@ -301,6 +301,12 @@ sdp_GridderUvwEsFft* sdp_gridder_uvw_es_fft_create_plan(
     sdp_GridderUvwEsFft* plan = (sdp_GridderUvwEsFft*) calloc(1,
             sizeof(sdp_GridderUvwEsFft)
     );
+    if (!plan)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        SDP_LOG_CRITICAL("Host memory allocation failure");
+        return NULL;
+    }
 
     plan->pixsize_x_rad = pixsize_x_rad;
     plan->pixsize_y_rad = pixsize_y_rad;
@@ -405,6 +411,18 @@ sdp_GridderUvwEsFft* sdp_gridder_uvw_es_fft_create_plan(
             (double*) calloc(QUADRATURE_SUPPORT_BOUND, sizeof(double));
     double* conv_corr_kernel =
             (double*) calloc(plan->image_size / 2 + 1, sizeof(double));
+    if (!quadrature_kernel || !quadrature_nodes || !quadrature_weights ||
+            !conv_corr_kernel)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        SDP_LOG_CRITICAL("Host memory allocation failure");
+        free(quadrature_kernel);
+        free(quadrature_nodes);
+        free(quadrature_weights);
+        free(conv_corr_kernel);
+        sdp_gridder_uvw_es_fft_free_plan(plan);
+        return NULL;
+    }
     sdp_generate_gauss_legendre_conv_kernel(
             plan->image_size, plan->grid_size, plan->support, plan->beta,
             quadrature_kernel, quadrature_nodes, quadrature_weights,
@@ -437,6 +455,19 @@ sdp_GridderUvwEsFft* sdp_gridder_uvw_es_fft_create_plan(
             sdp_mem_create(mem_type, SDP_MEM_CPU, 1, qsb, status);
     sdp_Mem* m_conv_corr_kernel =
             sdp_mem_create(mem_type, SDP_MEM_CPU, 1, len, status);
+    if (*status)
+    {
+        free(quadrature_kernel);
+        free(quadrature_nodes);
+        free(quadrature_weights);
+        free(conv_corr_kernel);
+        sdp_mem_free(m_quadrature_kernel);
+        sdp_mem_free(m_quadrature_nodes);
+        sdp_mem_free(m_quadrature_weights);
+        sdp_mem_free(m_conv_corr_kernel);
+        sdp_gridder_uvw_es_fft_free_plan(plan);
+        return NULL;
+    }
 
     if (dbl_vis)
     {
-- 
2.43.0

