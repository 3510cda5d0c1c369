From 9760bcbb73a8f8188ef0a8113258993b0a5a415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 01/52] fix: read sub_layer_level_idc when its own presence
 flag is set

---
 src/h265_profile_tier_level_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_profile_tier_level_parser.cc b/src/h265_profile_tier_level_parser.cc
index 1333480..9b9e6ea 100644
--- a/src/h265_profile_tier_level_parser.cc
+++ b/src/h265_profile_tier_level_parser.cc
@@ -92,7 +92,7 @@ H265ProfileTierLevelParser::ParseProfileTierLevel(
       }
     }
 
-    if (profile_tier_level->sub_layer_profile_present_flag[i]) {
+    if (profile_tier_level->sub_layer_level_present_flag[i]) {
       // sub_layer_level_idc  u(8)
       if (!bit_buffer->ReadBits(8, bits_tmp)) {
         return nullptr;
-- 
2.43.0


From d7bf0b6fc76ffbd0a6aa307dd718274043f5e07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 02/52] fix: infer fixed_pic_rate_within_cvs_flag as 1 when the
 rate is fixed in general

---
 src/h265_hrd_parameters_parser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/h265_hrd_parameters_parser.cc b/src/h265_hrd_parameters_parser.cc
index 53c9bc5..4aae8f9 100644
--- a/src/h265_hrd_parameters_parser.cc
+++ b/src/h265_hrd_parameters_parser.cc
@@ -144,7 +144,8 @@ H265HrdParametersParser::ParseHrdParameters(
       }
       hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(bits_tmp);
     } else {
-      hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(0);
+      // inferred to be equal to 1 (Section E.3.2)
+      hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(1);
     }
 
     if (hrd_parameters->fixed_pic_rate_within_cvs_flag[i]) {
-- 
2.43.0


From dd4db815b028c1147b7e84228c535b6266a4d675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 03/52] fix: read cprms_present_flag as one bit and infer the
 first one as 1

---
 src/h265_vps_parser.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/h265_vps_parser.cc b/src/h265_vps_parser.cc
index b1700a6..e11b5ca 100644
--- a/src/h265_vps_parser.cc
+++ b/src/h265_vps_parser.cc
@@ -225,12 +225,13 @@ std::shared_ptr<H265VpsParser::VpsState> H265VpsParser::ParseVps(
 
       if (i > 0) {
         // cprms_present_flag[i]  u(1)
-        if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
+        if (!bit_buffer->ReadBits(1, bits_tmp)) {
           return nullptr;
         }
-        vps->cprms_present_flag.push_back(golomb_tmp);
+        vps->cprms_present_flag.push_back(bits_tmp);
       } else {
-        vps->cprms_present_flag.push_back(0);
+        // inferred to be equal to 1 (Section 7.4.3.1)
+        vps->cprms_present_flag.push_back(1);
       }
 
       // hrd_parameters(cprms_present_flag[i], vps_max_sub_layers_minus1)
-- 
2.43.0


From 831a0d607ddfc1e8c9c2cbc32f86dfb7c81d724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 04/52] fix: derive common HRD information from the previous
 structure when absent

---
 include/h265_hrd_parameters_parser.h |  5 ++++-
 src/h265_hrd_parameters_parser.cc    | 28 +++++++++++++++++++++++++++-
 src/h265_vps_parser.cc               |  2 +-
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/include/h265_hrd_parameters_parser.h b/include/h265_hrd_parameters_parser.h
index 13f61e5..842224d 100644
--- a/include/h265_hrd_parameters_parser.h
+++ b/include/h265_hrd_parameters_parser.h
@@ -64,9 +64,12 @@ class H265HrdParametersParser {
   static std::unique_ptr<HrdParametersState> ParseHrdParameters(
       const uint8_t* data, size_t length, uint32_t commonInfPresentFlag,
       uint32_t maxNumSubLayersMinus1) noexcept;
+  // When the common information is not present, it is taken from `previous`
+  // (the previous hrd_parameters() structure), if there is one.
   static std::unique_ptr<HrdParametersState> ParseHrdParameters(
       BitBuffer* bit_buffer, uint32_t commonInfPresentFlag,
-      uint32_t maxNumSubLayersMinus1) noexcept;
+      uint32_t maxNumSubLayersMinus1,
+      const HrdParametersState* previous = nullptr) noexcept;
 };
 
 }  // namespace h265nal
diff --git a/src/h265_hrd_parameters_parser.cc b/src/h265_hrd_parameters_parser.cc
index 4aae8f9..4661424 100644
--- a/src/h265_hrd_parameters_parser.cc
+++ b/src/h265_hrd_parameters_parser.cc
@@ -33,7 +33,8 @@ H265HrdParametersParser::ParseHrdParameters(
 std::unique_ptr<H265HrdParametersParser::HrdParametersState>
 H265HrdParametersParser::ParseHrdParameters(
     BitBuffer* bit_buffer, uint32_t commonInfPresentFlag,
-    uint32_t maxNumSubLayersMinus1) noexcept {
+    uint32_t maxNumSubLayersMinus1,
+    const HrdParametersState* previous) noexcept {
   uint32_t bits_tmp;
   uint32_t golomb_tmp;
 
@@ -128,6 +129,31 @@ H265HrdParametersParser::ParseHrdParameters(
         return nullptr;
       }
     }
+  } else if (previous != nullptr) {
+    // Section 7.4.3.1: the HRD parameters that are common for all sub-layers
+    // are derived to be the same as the previous hrd_parameters()
+    hrd_parameters->nal_hrd_parameters_present_flag =
+        previous->nal_hrd_parameters_present_flag;
+    hrd_parameters->vcl_hrd_parameters_present_flag =
+        previous->vcl_hrd_parameters_present_flag;
+    hrd_parameters->sub_pic_hrd_params_present_flag =
+        previous->sub_pic_hrd_params_present_flag;
+    hrd_parameters->tick_divisor_minus2 = previous->tick_divisor_minus2;
+    hrd_parameters->du_cpb_removal_delay_increment_length_minus1 =
+        previous->du_cpb_removal_delay_increment_length_minus1;
+    hrd_parameters->sub_pic_cpb_params_in_pic_timing_sei_flag =
+        previous->sub_pic_cpb_params_in_pic_timing_sei_flag;
+    hrd_parameters->dpb_output_delay_du_length_minus1 =
+        previous->dpb_output_delay_du_length_minus1;
+    hrd_parameters->bit_rate_scale = previous->bit_rate_scale;
+    hrd_parameters->cpb_size_scale = previous->cpb_size_scale;
+    hrd_parameters->cpb_size_du_scale = previous->cpb_size_du_scale;
+    hrd_parameters->initial_cpb_removal_delay_length_minus1 =
+        previous->initial_cpb_removal_delay_length_minus1;
+    hrd_parameters->au_cpb_removal_delay_length_minus1 =
+        previous->au_cpb_removal_delay_length_minus1;
+    hrd_parameters->dpb_output_delay_length_minus1 =
+        previous->dpb_output_delay_length_minus1;
   }
 
   for (uint32_t i = 0; i <= maxNumSubLayersMinus1; i++) {
diff --git a/src/h265_vps_parser.cc b/src/h265_vps_parser.cc
index e11b5ca..76eff0b 100644
--- a/src/h265_vps_parser.cc
+++ b/src/h265_vps_parser.cc
@@ -237,7 +237,7 @@ std::shared_ptr<H265VpsParser::VpsState> H265VpsParser::ParseVps(
       // hrd_parameters(cprms_present_flag[i], vps_max_sub_layers_minus1)
       vps->hrd_parameters = H265HrdParametersParser::ParseHrdParameters(
           bit_buffer, vps->cprms_present_flag[i],
-          vps->vps_max_sub_layers_minus1);
+          vps->vps_max_sub_layers_minus1, vps->hrd_parameters.get());
       if (vps->hrd_parameters == nullptr) {
         return nullptr;
       }
-- 
2.43.0


From 1c8dd3ad120da7f60ace58152a0316a4ca26eb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 05/52] fix: dump the sub-layer HRD parameters once

---
 src/h265_hrd_parameters_parser.cc | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/h265_hrd_parameters_parser.cc b/src/h265_hrd_parameters_parser.cc
index 4661424..9ac0a34 100644
--- a/src/h265_hrd_parameters_parser.cc
+++ b/src/h265_hrd_parameters_parser.cc
@@ -334,21 +334,7 @@ void H265HrdParametersParser::HrdParametersState::fdump(
   }
   fprintf(outfp, " }");
 
-  if (nal_hrd_parameters_present_flag) {
-    // sublayer_hrd_parameters()
-    fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "sub_layer_hrd_parameters_vector {");
-    indent_level = indent_level_incr(indent_level);
-    for (auto& v : sub_layer_hrd_parameters_vector) {
-      fdump_indent_level(outfp, indent_level);
-      v->fdump(outfp, indent_level);
-    }
-    indent_level = indent_level_decr(indent_level);
-    fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "}");
-  }
-
-  if (vcl_hrd_parameters_present_flag) {
+  if (nal_hrd_parameters_present_flag || vcl_hrd_parameters_present_flag) {
     // sublayer_hrd_parameters()
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "sub_layer_hrd_parameters_vector {");
-- 
2.43.0


From a90ffb0d4afb813a70ecf5ff37d3382dda69710c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 06/52] fix: check the picture size against the SPS's own
 MinCbSizeY

---
 src/h265_sps_parser.cc | 52 ++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/h265_sps_parser.cc b/src/h265_sps_parser.cc
index abe707d..3668efb 100644
--- a/src/h265_sps_parser.cc
+++ b/src/h265_sps_parser.cc
@@ -123,19 +123,6 @@ std::shared_ptr<H265SpsParser::SpsState> H265SpsParser::ParseSps(
 #endif  // FPRINT_ERRORS
     return nullptr;
   }
-  // Rec. ITU-T H.265 v5 (02/2018) Page 78
-  // "pic_width_in_luma_samples shall not be equal to 0 and shall be an
-  // integer multiple of MinCbSizeY."
-  uint32_t MinCbSizeY = sps->getMinCbSizeY();
-  if ((sps->pic_width_in_luma_samples == 0) ||
-      ((MinCbSizeY * (sps->pic_width_in_luma_samples / MinCbSizeY)) !=
-       sps->pic_width_in_luma_samples)) {
-#ifdef FPRINT_ERRORS
-    fprintf(stderr, "error: invalid sps->pic_width_in_luma_samples: %i\n",
-            sps->pic_width_in_luma_samples);
-#endif  // FPRINT_ERRORS
-    return nullptr;
-  }
 
   // pic_height_in_luma_samples  ue(v)
   if (!bit_buffer->ReadExponentialGolomb(sps->pic_height_in_luma_samples)) {
@@ -153,18 +140,6 @@ std::shared_ptr<H265SpsParser::SpsState> H265SpsParser::ParseSps(
 #endif  // FPRINT_ERRORS
     return nullptr;
   }
-  // Rec. ITU-T H.265 v5 (02/2018) Page 78
-  // "pic_height_in_luma_samples shall not be equal to 0 and shall be an
-  // integer multiple of MinCbSizeY."
-  if ((sps->pic_height_in_luma_samples == 0) ||
-      ((MinCbSizeY * (sps->pic_height_in_luma_samples / MinCbSizeY)) !=
-       sps->pic_height_in_luma_samples)) {
-#ifdef FPRINT_ERRORS
-    fprintf(stderr, "error: invalid sps->pic_height_in_luma_samples: %i\n",
-            sps->pic_height_in_luma_samples);
-#endif  // FPRINT_ERRORS
-    return nullptr;
-  }
 
   // conformance_window_flag  u(1)
   if (!bit_buffer->ReadBits(1, sps->conformance_window_flag)) {
@@ -322,6 +297,33 @@ std::shared_ptr<H265SpsParser::SpsState> H265SpsParser::ParseSps(
   if (sps->log2_min_luma_coding_block_size_minus3 > 3) {
     return nullptr;
   }
+  // Rec. ITU-T H.265 v5 (02/2018) Page 78
+  // "pic_width_in_luma_samples shall not be equal to 0 and shall be an
+  // integer multiple of MinCbSizeY."
+  // MinCbSizeY is known only once log2_min_luma_coding_block_size_minus3 has
+  // been read.
+  uint32_t MinCbSizeY = sps->getMinCbSizeY();
+  if ((sps->pic_width_in_luma_samples == 0) ||
+      ((MinCbSizeY * (sps->pic_width_in_luma_samples / MinCbSizeY)) !=
+       sps->pic_width_in_luma_samples)) {
+#ifdef FPRINT_ERRORS
+    fprintf(stderr, "error: invalid sps->pic_width_in_luma_samples: %i\n",
+            sps->pic_width_in_luma_samples);
+#endif  // FPRINT_ERRORS
+    return nullptr;
+  }
+  // Rec. ITU-T H.265 v5 (02/2018) Page 78
+  // "pic_height_in_luma_samples shall not be equal to 0 and shall be an
+  // integer multiple of MinCbSizeY."
+  if ((sps->pic_height_in_luma_samples == 0) ||
+      ((MinCbSizeY * (sps->pic_height_in_luma_samples / MinCbSizeY)) !=
+       sps->pic_height_in_luma_samples)) {
+#ifdef FPRINT_ERRORS
+    fprintf(stderr, "error: invalid sps->pic_height_in_luma_samples: %i\n",
+            sps->pic_height_in_luma_samples);
+#endif  // FPRINT_ERRORS
+    return nullptr;
+  }
 
   // log2_diff_max_min_luma_coding_block_size  ue(v)
   if (!bit_buffer->ReadExponentialGolomb(
-- 
2.43.0


From 6e7486a7086f79f1fe20270fb5e84ba8dc0af7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 07/52] fix: read chroma_bit_depth_entry_minus8 for
 non-monochrome palettes

---
 src/h265_pps_scc_extension_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_pps_scc_extension_parser.cc b/src/h265_pps_scc_extension_parser.cc
index 9fcb347..e5819ac 100644
--- a/src/h265_pps_scc_extension_parser.cc
+++ b/src/h265_pps_scc_extension_parser.cc
@@ -104,7 +104,7 @@ H265PpsSccExtensionParser::ParsePpsSccExtension(
         return nullptr;
       }
 
-      if (pps_scc_extension->monochrome_palette_flag) {
+      if (!pps_scc_extension->monochrome_palette_flag) {
         // chroma_bit_depth_entry_minus8  ue(v)
         if (!bit_buffer->ReadExponentialGolomb(
                 pps_scc_extension->chroma_bit_depth_entry_minus8)) {
-- 
2.43.0


From c4805305f365e8a7967d7078db3a16c79a55822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 08/52] fix: refuse palette entries of more than 16 bits

---
 src/h265_pps_scc_extension_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_pps_scc_extension_parser.cc b/src/h265_pps_scc_extension_parser.cc
index e5819ac..91c9539 100644
--- a/src/h265_pps_scc_extension_parser.cc
+++ b/src/h265_pps_scc_extension_parser.cc
@@ -129,7 +129,9 @@ H265PpsSccExtensionParser::ParsePpsSccExtension(
               (comp == 0)
                   ? (pps_scc_extension->luma_bit_depth_entry_minus8 + 8)
                   : (pps_scc_extension->chroma_bit_depth_entry_minus8 + 8);
-          if (bit_depth == 0) {
+          // the palette bit depth cannot exceed the sample bit depth, which is
+          // at most 16
+          if (bit_depth < 8 || bit_depth > 16) {
 #ifdef FPRINT_ERRORS
             fprintf(stderr,
                     "error: invalid luma_bit_depth_entry_minus8: "
-- 
2.43.0


From 9d14a4cf0eb3027a93a5c3d531ce4ac5dd41f219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 09/52] fix: read the resampling phases as unsigned values and
 check their range

---
 .../h265_pps_multilayer_extension_parser.h    |  6 ++++
 src/h265_pps_multilayer_extension_parser.cc   | 33 ++++++++++++-------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/include/h265_pps_multilayer_extension_parser.h b/include/h265_pps_multilayer_extension_parser.h
index db58c53..9decfbe 100644
--- a/include/h265_pps_multilayer_extension_parser.h
+++ b/include/h265_pps_multilayer_extension_parser.h
@@ -18,6 +18,12 @@ namespace h265nal {
 // 2018-02 standard) from an H265 NALU.
 class H265PpsMultilayerExtensionParser {
  public:
+  // Section F.7.4.3.3.4: phase_hor_luma and phase_ver_luma are in the range of
+  // 0 to 31, phase_hor_chroma_plus8 and phase_ver_chroma_plus8 in the range of
+  // 0 to 63
+  const static uint32_t kPhaseLumaMax = 31;
+  const static uint32_t kPhaseChromaPlus8Max = 63;
+
   // The parsed state of the PpsMultilayerExtension.
   struct PpsMultilayerExtensionState {
     PpsMultilayerExtensionState() = default;
diff --git a/src/h265_pps_multilayer_extension_parser.cc b/src/h265_pps_multilayer_extension_parser.cc
index 5449234..1e8a70b 100644
--- a/src/h265_pps_multilayer_extension_parser.cc
+++ b/src/h265_pps_multilayer_extension_parser.cc
@@ -33,6 +33,7 @@ std::unique_ptr<H265PpsMultilayerExtensionParser::PpsMultilayerExtensionState>
 H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(
     BitBuffer* bit_buffer) noexcept {
   uint32_t bits_tmp;
+  uint32_t golomb_tmp;
   int32_t sgolomb_tmp;
 
   // H265 pps_multilayer_extension() NAL Unit.
@@ -153,29 +154,37 @@ H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(
         bits_tmp);
 
     if (pps_multilayer_extension->resample_phase_set_present_flag.back()) {
-      // phase_hor_luma[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_hor_luma[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp) ||
+          golomb_tmp > kPhaseLumaMax) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_hor_luma.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_hor_luma.push_back(
+          static_cast<int32_t>(golomb_tmp));
 
-      // phase_ver_luma[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_ver_luma[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp) ||
+          golomb_tmp > kPhaseLumaMax) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_ver_luma.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_ver_luma.push_back(
+          static_cast<int32_t>(golomb_tmp));
 
-      // phase_hor_chroma_plus8[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_hor_chroma_plus8[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp) ||
+          golomb_tmp > kPhaseChromaPlus8Max) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_hor_chroma_plus8.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_hor_chroma_plus8.push_back(
+          static_cast<int32_t>(golomb_tmp));
 
-      // phase_ver_chroma_plus8[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_ver_chroma_plus8[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp) ||
+          golomb_tmp > kPhaseChromaPlus8Max) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_ver_chroma_plus8.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_ver_chroma_plus8.push_back(
+          static_cast<int32_t>(golomb_tmp));
     }
   }
 
-- 
2.43.0


From 8fd372326f40e2dfa5beb08ef51f064b29d41b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 10/52] fix: initialise colour_mapping_enabled_flag

---
 include/h265_pps_multilayer_extension_parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/h265_pps_multilayer_extension_parser.h b/include/h265_pps_multilayer_extension_parser.h
index 9decfbe..f24dac5 100644
--- a/include/h265_pps_multilayer_extension_parser.h
+++ b/include/h265_pps_multilayer_extension_parser.h
@@ -61,7 +61,7 @@ class H265PpsMultilayerExtensionParser {
     std::vector<int32_t> phase_ver_luma;
     std::vector<int32_t> phase_hor_chroma_plus8;
     std::vector<int32_t> phase_ver_chroma_plus8;
-    uint32_t colour_mapping_enabled_flag;
+    uint32_t colour_mapping_enabled_flag = 0;
     // colour_mapping_table(()
   };
 
-- 
2.43.0


From c656d57c473d2003196c799d24af1e6319cb198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 11/52] fix: refuse a PPS whose multilayer extension does not
 parse

---
 src/h265_pps_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index d33eb84..6ab8815 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -303,6 +303,9 @@ std::shared_ptr<H265PpsParser::PpsState> H265PpsParser::ParsePps(
     pps->pps_multilayer_extension =
         H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(
             bit_buffer);
+    if (pps->pps_multilayer_extension == nullptr) {
+      return nullptr;
+    }
   }
 
   if (pps->pps_3d_extension_flag) {
-- 
2.43.0


From 73ceec28f231edd2e4d3aac437196a34ae5f40d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 12/52] fix: dump diff_cu_qp_delta_depth under its own name

---
 src/h265_pps_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index 6ab8815..e5c534f 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -393,7 +393,7 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
 
   if (cu_qp_delta_enabled_flag) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "cu_qp_delta_enabled_flag: %i", cu_qp_delta_enabled_flag);
+    fprintf(outfp, "diff_cu_qp_delta_depth: %i", diff_cu_qp_delta_depth);
   }
 
   fdump_indent_level(outfp, indent_level);
-- 
2.43.0


From 46e4c867af55b0ca85374b04d85a1b9238d58684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 13/52] fix: refuse scaling list coefficients outside their
 range

---
 src/h265_scaling_list_data_parser.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/h265_scaling_list_data_parser.cc b/src/h265_scaling_list_data_parser.cc
index e03a3ec..9306a66 100644
--- a/src/h265_scaling_list_data_parser.cc
+++ b/src/h265_scaling_list_data_parser.cc
@@ -82,6 +82,16 @@ H265ScalingListDataParser::ParseScalingListData(
                       ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId])) {
             return nullptr;
           }
+          // Section 7.4.5: "The value of scaling_list_dc_coef_minus8 shall be
+          // in the range of -7 to 247, inclusive."
+          if (scaling_list_data
+                      ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId] <
+                  -7 ||
+              scaling_list_data
+                      ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId] >
+                  247) {
+            return nullptr;
+          }
           nextCoef = static_cast<uint32_t>(
               scaling_list_data
                   ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId] +
@@ -94,6 +104,11 @@ H265ScalingListDataParser::ParseScalingListData(
                   scaling_list_delta_coef)) {
             return nullptr;
           }
+          // Section 7.4.5: "The value of scaling_list_delta_coef shall be in
+          // the range of -128 to 127, inclusive."
+          if (scaling_list_delta_coef < -128 || scaling_list_delta_coef > 127) {
+            return nullptr;
+          }
           nextCoef = static_cast<uint32_t>(static_cast<int32_t>(nextCoef) +
                                            scaling_list_delta_coef + 256) %
                      256;
-- 
2.43.0


From ead28c82d0d57daad4496fe0c249ba717e45b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 14/52] fix: refuse short-term RPS deltas outside their range

---
 include/h265_st_ref_pic_set_parser.h | 3 +++
 src/h265_st_ref_pic_set_parser.cc    | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/h265_st_ref_pic_set_parser.h b/include/h265_st_ref_pic_set_parser.h
index 9622390..c7c00ee 100644
--- a/include/h265_st_ref_pic_set_parser.h
+++ b/include/h265_st_ref_pic_set_parser.h
@@ -25,6 +25,9 @@ class H265StRefPicSetParser {
   // of 0 to 2^15 - 1, inclusive."
   const static uint32_t kAbsDeltaRpsMinus1Min = 0;
   const static uint32_t kAbsDeltaRpsMinus1Max = 32767;
+
+  // delta_poc_s0_minus1 and delta_poc_s1_minus1 valid range (Section 7.4.8)
+  const static uint32_t kDeltaPocMinus1Max = 32767;
   // Section 7.4.8: "When nuh_layer_id of the current picture is equal to 0,
   // the value of num_negative_pics shall be in the range of 0 to
   // sps_max_dec_pic_buffering_minus1[sps_max_sub_layers_minus1],
diff --git a/src/h265_st_ref_pic_set_parser.cc b/src/h265_st_ref_pic_set_parser.cc
index f530776..2410c59 100644
--- a/src/h265_st_ref_pic_set_parser.cc
+++ b/src/h265_st_ref_pic_set_parser.cc
@@ -317,6 +317,9 @@ H265StRefPicSetParser::ParseStRefPicSet(
       if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
+      if (golomb_tmp > kDeltaPocMinus1Max) {
+        return nullptr;
+      }
       st_ref_pic_set->delta_poc_s0_minus1.push_back(golomb_tmp);
 
       // used_by_curr_pic_s0_flag[i] u(1)
@@ -331,6 +334,9 @@ H265StRefPicSetParser::ParseStRefPicSet(
       if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
+      if (golomb_tmp > kDeltaPocMinus1Max) {
+        return nullptr;
+      }
       st_ref_pic_set->delta_poc_s1_minus1.push_back(golomb_tmp);
 
       // used_by_curr_pic_s1_flag[i] u(1)
-- 
2.43.0


From 0cae7575d4ac75763b43c6b97429589cc511f63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 15/52] fix: refuse a short-term RPS predicted from a set that
 is not available

---
 src/h265_st_ref_pic_set_parser.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/h265_st_ref_pic_set_parser.cc b/src/h265_st_ref_pic_set_parser.cc
index 2410c59..1a01c90 100644
--- a/src/h265_st_ref_pic_set_parser.cc
+++ b/src/h265_st_ref_pic_set_parser.cc
@@ -242,6 +242,13 @@ H265StRefPicSetParser::ParseStRefPicSet(
     const uint32_t RefRpsIdx =
         st_ref_pic_set->stRpsIdx - (st_ref_pic_set->delta_idx_minus1 + 1);
 
+    // the source candidate RPS must be available
+    if (st_ref_pic_set_state_vector == nullptr ||
+        RefRpsIdx >= st_ref_pic_set_state_vector->size() ||
+        (*st_ref_pic_set_state_vector)[RefRpsIdx] == nullptr) {
+      return nullptr;
+    }
+
     // Equation 7-71
     const auto& ref = (*st_ref_pic_set_state_vector)[RefRpsIdx];
     uint32_t NumDeltaPocs_RefRpsIdx =
-- 
2.43.0


From 68c384914cb8956c20e63752b18e49549b6d4afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 16/52] fix: derive the slice's ChromaArrayType whether or not
 SAO is enabled

---
 src/h265_slice_parser.cc | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 2d28f89..b5e4405 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -353,6 +353,19 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
       }
     }
 
+    // Depending on the value of separate_colour_plane_flag, the value of
+    // the variable ChromaArrayType is assigned as follows:
+    // - If separate_colour_plane_flag is equal to 0, ChromaArrayType is
+    //   set equal to chroma_format_idc.
+    // - Otherwise (separate_colour_plane_flag is equal to 1),
+    //   ChromaArrayType is set equal to 0.
+    uint32_t chroma_format_idc = sps->chroma_format_idc;
+    if (slice_segment_header->separate_colour_plane_flag == 0) {
+      slice_segment_header->ChromaArrayType = chroma_format_idc;
+    } else {
+      slice_segment_header->ChromaArrayType = 0;
+    }
+
     slice_segment_header->sample_adaptive_offset_enabled_flag =
         sps->sample_adaptive_offset_enabled_flag;
     if (slice_segment_header->sample_adaptive_offset_enabled_flag) {
@@ -361,19 +374,6 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
         return nullptr;
       }
 
-      // Depending on the value of separate_colour_plane_flag, the value of
-      // the variable ChromaArrayType is assigned as follows:
-      // - If separate_colour_plane_flag is equal to 0, ChromaArrayType is
-      //   set equal to chroma_format_idc.
-      // - Otherwise (separate_colour_plane_flag is equal to 1),
-      //   ChromaArrayType is set equal to 0.
-      uint32_t chroma_format_idc = sps->chroma_format_idc;
-      if (slice_segment_header->separate_colour_plane_flag == 0) {
-        slice_segment_header->ChromaArrayType = chroma_format_idc;
-      } else {
-        slice_segment_header->ChromaArrayType = 0;
-      }
-
       if (slice_segment_header->ChromaArrayType != 0) {
         // slice_sao_chroma_flag  u(1)
         if (!bit_buffer->ReadBits(
-- 
2.43.0


From 1c8c7afc07e4527dd7650e572242653a515d58c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 17/52] fix: infer the slice's active reference counts from the
 PPS

---
 src/h265_slice_parser.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index b5e4405..cb1e326 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -405,6 +405,17 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
             return nullptr;
           }
         }
+      } else {
+        // Section 7.4.7.1: "When the current slice is a P or B slice and
+        // num_ref_idx_l0_active_minus1 is not present,
+        // num_ref_idx_l0_active_minus1 is inferred to be equal to
+        // num_ref_idx_l0_default_active_minus1." Same for list 1 in B slices.
+        slice_segment_header->num_ref_idx_l0_active_minus1 =
+            pps->num_ref_idx_l0_default_active_minus1;
+        if (slice_segment_header->slice_type == SliceType_B) {
+          slice_segment_header->num_ref_idx_l1_active_minus1 =
+              pps->num_ref_idx_l1_default_active_minus1;
+        }
       }
 
       slice_segment_header->lists_modification_present_flag =
-- 
2.43.0


From e692ccdbfc097af778e18a2f049c86390506ec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 18/52] fix: infer slice_deblocking_filter_disabled_flag from
 the PPS

---
 src/h265_slice_parser.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index cb1e326..06d32b2 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -575,6 +575,11 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
       }
     }
 
+    // Section 7.4.7.1: "When slice_deblocking_filter_disabled_flag is not
+    // present, it is inferred to be equal to
+    // pps_deblocking_filter_disabled_flag."
+    slice_segment_header->slice_deblocking_filter_disabled_flag =
+        pps->pps_deblocking_filter_disabled_flag;
     if (slice_segment_header->deblocking_filter_override_flag) {
       // slice_deblocking_filter_disabled_flag  u(1)
       if (!bit_buffer->ReadBits(
-- 
2.43.0


From ca23f28629c7ccb87e0e63c5c572f8bb7dd67afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 19/52] fix: allow every entry point of a picture with tiles
 and WPP

---
 src/h265_slice_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 06d32b2..271daf4 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -718,7 +718,7 @@ bool H265SliceSegmentHeaderParser::SliceSegmentHeaderState::
   // ( num_tile_columns_minus1 + 1 ) * PicHeightInCtbsY - 1, inclusive.
   if (tiles_enabled_flag == 1 && entropy_coding_sync_enabled_flag == 1) {
     uint32_t max_num_entry_point_offsets =
-        ((pps->num_tile_columns_minus1 + 1) * (sps->getPicHeightInCtbsY() - 1));
+        ((pps->num_tile_columns_minus1 + 1) * sps->getPicHeightInCtbsY() - 1);
     return (num_entry_point_offsets_value <= max_num_entry_point_offsets);
   }
 
-- 
2.43.0


From 127b61667ab8ca8aef1da531fa6ce01c404842ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 20/52] fix: parse the list 1 part of pred_weight_table() for B
 slices

---
 include/h265_pred_weight_table_parser.h |   8 +-
 src/h265_pred_weight_table_parser.cc    | 131 +++++++++++++++++++++++-
 src/h265_slice_parser.cc                |   4 +-
 3 files changed, 137 insertions(+), 6 deletions(-)

diff --git a/include/h265_pred_weight_table_parser.h b/include/h265_pred_weight_table_parser.h
index 0a455d0..9e2086a 100644
--- a/include/h265_pred_weight_table_parser.h
+++ b/include/h265_pred_weight_table_parser.h
@@ -35,6 +35,8 @@ class H265PredWeightTableParser {
     // input parameters
     uint32_t ChromaArrayType = 0;
     uint32_t num_ref_idx_l0_active_minus1 = 0;
+    bool is_b_slice = false;
+    uint32_t num_ref_idx_l1_active_minus1 = 0;
 
     // contents
     uint32_t luma_log2_weight_denom = 0;
@@ -57,10 +59,12 @@ class H265PredWeightTableParser {
   // Unpack RBSP and parse PredWeightTable state from the supplied buffer.
   static std::unique_ptr<PredWeightTableState> ParsePredWeightTable(
       const uint8_t* data, size_t length, uint32_t ChromaArrayType,
-      uint32_t num_ref_idx_l0_active_minus1) noexcept;
+      uint32_t num_ref_idx_l0_active_minus1, bool is_b_slice = false,
+      uint32_t num_ref_idx_l1_active_minus1 = 0) noexcept;
   static std::unique_ptr<PredWeightTableState> ParsePredWeightTable(
       BitBuffer* bit_buffer, uint32_t ChromaArrayType,
-      uint32_t num_ref_idx_l0_active_minus1) noexcept;
+      uint32_t num_ref_idx_l0_active_minus1, bool is_b_slice = false,
+      uint32_t num_ref_idx_l1_active_minus1 = 0) noexcept;
 };
 
 }  // namespace h265nal
diff --git a/src/h265_pred_weight_table_parser.cc b/src/h265_pred_weight_table_parser.cc
index bff9207..7660060 100644
--- a/src/h265_pred_weight_table_parser.cc
+++ b/src/h265_pred_weight_table_parser.cc
@@ -23,17 +23,20 @@ namespace h265nal {
 std::unique_ptr<H265PredWeightTableParser::PredWeightTableState>
 H265PredWeightTableParser::ParsePredWeightTable(
     const uint8_t* data, size_t length, uint32_t ChromaArrayType,
-    uint32_t num_ref_idx_l0_active_minus1) noexcept {
+    uint32_t num_ref_idx_l0_active_minus1, bool is_b_slice,
+    uint32_t num_ref_idx_l1_active_minus1) noexcept {
   std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
   BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
   return ParsePredWeightTable(&bit_buffer, ChromaArrayType,
-                              num_ref_idx_l0_active_minus1);
+                              num_ref_idx_l0_active_minus1, is_b_slice,
+                              num_ref_idx_l1_active_minus1);
 }
 
 std::unique_ptr<H265PredWeightTableParser::PredWeightTableState>
 H265PredWeightTableParser::ParsePredWeightTable(
     BitBuffer* bit_buffer, uint32_t ChromaArrayType,
-    uint32_t num_ref_idx_l0_active_minus1) noexcept {
+    uint32_t num_ref_idx_l0_active_minus1, bool is_b_slice,
+    uint32_t num_ref_idx_l1_active_minus1) noexcept {
   uint32_t bits_tmp;
   int32_t sgolomb_tmp;
 
@@ -45,6 +48,9 @@ H265PredWeightTableParser::ParsePredWeightTable(
   pred_weight_table->ChromaArrayType = ChromaArrayType;
   pred_weight_table->num_ref_idx_l0_active_minus1 =
       num_ref_idx_l0_active_minus1;
+  pred_weight_table->is_b_slice = is_b_slice;
+  pred_weight_table->num_ref_idx_l1_active_minus1 =
+      num_ref_idx_l1_active_minus1;
 
   // luma_log2_weight_denom  ue(v)
   if (!bit_buffer->ReadExponentialGolomb(
@@ -121,6 +127,69 @@ H265PredWeightTableParser::ParsePredWeightTable(
     }
   }
 
+  if (pred_weight_table->is_b_slice) {
+    for (uint32_t i = 0; i <= pred_weight_table->num_ref_idx_l1_active_minus1;
+         ++i) {
+      // from ffmpeg/libavcodec/cbs_h265_syntax_template.c
+      // "1 (is not same POC and same layer_id)"
+      // luma_weight_l1_flag[i]  u(1)
+      if (!bit_buffer->ReadBits(1, bits_tmp)) {
+        return nullptr;
+      }
+      pred_weight_table->luma_weight_l1_flag.push_back(bits_tmp);
+    }
+
+    if (pred_weight_table->ChromaArrayType != 0) {
+      for (uint32_t i = 0; i <= pred_weight_table->num_ref_idx_l1_active_minus1;
+           ++i) {
+        // from ffmpeg/libavcodec/cbs_h265_syntax_template.c
+        // "1 (is not same POC and same layer_id)"
+        // chroma_weight_l1_flag[i]  u(1)
+        if (!bit_buffer->ReadBits(1, bits_tmp)) {
+          return nullptr;
+        }
+        pred_weight_table->chroma_weight_l1_flag.push_back(bits_tmp);
+      }
+    }
+
+    for (uint32_t i = 0; i <= pred_weight_table->num_ref_idx_l1_active_minus1;
+         ++i) {
+      if (pred_weight_table->luma_weight_l1_flag[i]) {
+        // delta_luma_weight_l1[i]  se(v)
+        if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+          return nullptr;
+        }
+        pred_weight_table->delta_luma_weight_l1.push_back(sgolomb_tmp);
+        // luma_offset_l1[i]  se(v)
+        if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+          return nullptr;
+        }
+        pred_weight_table->luma_offset_l1.push_back(sgolomb_tmp);
+      }
+      if (pred_weight_table->ChromaArrayType != 0) {
+        if (pred_weight_table->chroma_weight_l1_flag[i]) {
+          pred_weight_table->delta_chroma_weight_l1.emplace_back();
+          pred_weight_table->delta_chroma_offset_l1.emplace_back();
+          for (int j = 0; j < 2; ++j) {
+            // delta_chroma_weight_l1[i][j]  se(v)
+            if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+              return nullptr;
+            }
+            pred_weight_table->delta_chroma_weight_l1.back().push_back(
+                sgolomb_tmp);
+
+            // delta_chroma_offset_l1[i][j]  se(v)
+            if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+              return nullptr;
+            }
+            pred_weight_table->delta_chroma_offset_l1.back().push_back(
+                sgolomb_tmp);
+          }
+        }
+      }
+    }
+  }
+
   return pred_weight_table;
 }
 
@@ -193,6 +262,62 @@ void H265PredWeightTableParser::PredWeightTableState::fdump(
     fprintf(outfp, " }");
   }
 
+  if (is_b_slice) {
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "luma_weight_l1_flag {");
+    for (const uint32_t& v : luma_weight_l1_flag) {
+      fprintf(outfp, " %u", v);
+    }
+    fprintf(outfp, " }");
+
+    if (ChromaArrayType != 0) {
+      fdump_indent_level(outfp, indent_level);
+      fprintf(outfp, "chroma_weight_l1_flag {");
+      for (const uint32_t& v : chroma_weight_l1_flag) {
+        fprintf(outfp, " %u", v);
+      }
+      fprintf(outfp, " }");
+    }
+
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "delta_luma_weight_l1 {");
+    for (const int32_t& v : delta_luma_weight_l1) {
+      fprintf(outfp, " %i", v);
+    }
+    fprintf(outfp, " }");
+
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "luma_offset_l1 {");
+    for (const int32_t& v : luma_offset_l1) {
+      fprintf(outfp, " %i", v);
+    }
+    fprintf(outfp, " }");
+
+    if (ChromaArrayType != 0) {
+      fdump_indent_level(outfp, indent_level);
+      fprintf(outfp, "delta_chroma_weight_l1 {");
+      for (const std::vector<int32_t>& vv : delta_chroma_weight_l1) {
+        fprintf(outfp, " {");
+        for (const int32_t& v : vv) {
+          fprintf(outfp, " %i", v);
+        }
+        fprintf(outfp, " }");
+      }
+      fprintf(outfp, " }");
+
+      fdump_indent_level(outfp, indent_level);
+      fprintf(outfp, "delta_chroma_offset_l1 {");
+      for (const std::vector<int32_t>& vv : delta_chroma_offset_l1) {
+        fprintf(outfp, " {");
+        for (const int32_t& v : vv) {
+          fprintf(outfp, " %i", v);
+        }
+        fprintf(outfp, " }");
+      }
+      fprintf(outfp, " }");
+    }
+  }
+
   indent_level = indent_level_decr(indent_level);
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "}");
diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 271daf4..e317ec1 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -479,7 +479,9 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
         slice_segment_header->pred_weight_table =
             H265PredWeightTableParser::ParsePredWeightTable(
                 bit_buffer, slice_segment_header->ChromaArrayType,
-                slice_segment_header->num_ref_idx_l0_active_minus1);
+                slice_segment_header->num_ref_idx_l0_active_minus1,
+                slice_segment_header->slice_type == SliceType_B,
+                slice_segment_header->num_ref_idx_l1_active_minus1);
         if (slice_segment_header->pred_weight_table == nullptr) {
           return nullptr;
         }
-- 
2.43.0


From 5d5a3c38903381f78e7171678ffcc1f771b79adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 21/52] fix: do not overflow when checking an explicit NAL unit
 length

---
 src/h265_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index 7cea4b2..54c615e 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -216,7 +216,7 @@ H265BitstreamParser::ParseBitstreamNALULength(
         break;
       }
       i += nalu_length_bytes;
-      if (nalu_length == 0 || i + nalu_length > length) {
+      if (nalu_length == 0 || nalu_length > length - i) {
         break;
       }
     } else {
-- 
2.43.0


From dcf9ed00f04038014e4d547f54078f4c6c29536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 22/52] fix: report the NAL unit length, not the size of the
 length field

---
 src/h265_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index 54c615e..ef34cb7 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -237,7 +237,7 @@ H265BitstreamParser::ParseBitstreamNALULength(
     }
     // store the offset
     nal_unit->offset = i;
-    nal_unit->length = nalu_length_bytes;
+    nal_unit->length = nalu_length;
 
     bitstream->nal_units.push_back(std::move(nal_unit));
 
-- 
2.43.0


From 3d97e588b784a94bbe0618937a563e41b12cf5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 23/52] fix: keep the parsing options when the caller provides
 the parser state

---
 src/h265_bitstream_parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index ef34cb7..7865f9d 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -130,6 +130,7 @@ H265BitstreamParser::ParseBitstream(
     H265BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   // (1) split the input string into a vector of NAL units
   std::vector<NaluIndex> nalu_indices = FindNaluIndices(data, length);
@@ -179,7 +180,6 @@ H265BitstreamParser::ParseBitstream(const uint8_t* data, size_t length,
 #endif  // FPRINT_ERRORS
     return nullptr;
   }
-  bitstream->parsing_options_ = parsing_options;
   return bitstream;
 }
 
@@ -195,6 +195,7 @@ H265BitstreamParser::ParseBitstreamNALULength(
     H265BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   size_t i = 0;
 
@@ -266,7 +267,6 @@ H265BitstreamParser::ParseBitstreamNALULength(
 #endif  // FPRINT_ERRORS
     return nullptr;
   }
-  bitstream->parsing_options_ = parsing_options;
   return bitstream;
 }
 
-- 
2.43.0


From 979eea9f3081e815d3a5283e9f5d8fd15005a1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 24/52] fix: initialise the NAL unit offset and lengths

---
 include/h265_nal_unit_parser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/h265_nal_unit_parser.h b/include/h265_nal_unit_parser.h
index ef14840..bab4026 100644
--- a/include/h265_nal_unit_parser.h
+++ b/include/h265_nal_unit_parser.h
@@ -35,11 +35,11 @@ class H265NalUnitParser {
 #endif  // FDUMP_DEFINE
 
     // NAL Unit offset in the full blob
-    size_t offset;
+    size_t offset = 0;
     // NAL Unit length
-    size_t length;
+    size_t length = 0;
     // NAL Unit parsed length
-    size_t parsed_length;
+    size_t parsed_length = 0;
     // NAL Unit checksum
     std::shared_ptr<NaluChecksum> checksum;
 
-- 
2.43.0


From 5416959955442ee24ec47408a4ca3ab982ffe987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 25/52] fix: do not dump a checksum that was not calculated

---
 src/h265_nal_unit_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_nal_unit_parser.cc b/src/h265_nal_unit_parser.cc
index c6f35bf..15b2530 100644
--- a/src/h265_nal_unit_parser.cc
+++ b/src/h265_nal_unit_parser.cc
@@ -108,7 +108,7 @@ void H265NalUnitParser::NalUnitState::fdump(
   }
 
   // nal unit checksum
-  if (parsing_options.add_checksum) {
+  if (parsing_options.add_checksum && checksum != nullptr) {
     fdump_indent_level(outfp, indent_level);
     char checksum_printable[64] = {};
     checksum->fdump(checksum_printable, 64);
-- 
2.43.0


From 85dbc5d11eed6f6143e46c75873d6b9852f715a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 26/52] fix: do not dump an access unit delimiter that did not
 parse

---
 src/h265_nal_unit_payload_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_nal_unit_payload_parser.cc b/src/h265_nal_unit_payload_parser.cc
index ff5189f..97710a4 100644
--- a/src/h265_nal_unit_payload_parser.cc
+++ b/src/h265_nal_unit_payload_parser.cc
@@ -232,7 +232,9 @@ void H265NalUnitPayloadParser::NalUnitPayloadState::fdump(
       }
       break;
     case AUD_NUT:
-      aud->fdump(outfp, indent_level);
+      if (aud != nullptr) {
+        aud->fdump(outfp, indent_level);
+      }
       break;
     case EOS_NUT:
       // end_of_seq_rbsp()
-- 
2.43.0


From 3d36735f17b968855524b6d2de12d8fabce9e1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 27/52] fix: terminate the checksum of a buffer that is not
 byte aligned

---
 src/h265_common.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/h265_common.cc b/src/h265_common.cc
index 2a2a3e4..704077d 100644
--- a/src/h265_common.cc
+++ b/src/h265_common.cc
@@ -692,7 +692,15 @@ std::shared_ptr<NaluChecksum> NaluChecksum::GetNaluChecksum(
   uint8_t val8 = 0;
   val = 0;
   while (bit_buffer->RemainingBitCount() > 0) {
-    (void)bit_buffer->ReadUInt8(val8);
+    if (!bit_buffer->ReadUInt8(val8)) {
+      // less than a byte left: zero-pad it
+      size_t bits_left = static_cast<size_t>(bit_buffer->RemainingBitCount());
+      uint32_t bits_tmp = 0;
+      if (!bit_buffer->ReadBits(bits_left, bits_tmp)) {
+        break;
+      }
+      val8 = static_cast<uint8_t>(bits_tmp << (8 - bits_left));
+    }
     val |= (static_cast<uint32_t>(val8) << (8 * (3 - i)));
     i += 1;
   }
-- 
2.43.0


From 4f8f30859b3f7d07da12f39888fa8269336bb905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 28/52] fix: decode large signed Exp-Golomb values without
 overflow

---
 src/rtc_common.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 970852c..181568b 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -273,7 +273,7 @@ bool BitBuffer::ReadSignedExponentialGolomb(int32_t& val) {
   if ((unsigned_val & 1) == 0) {
     val = -static_cast<int32_t>(unsigned_val / 2);
   } else {
-    val = (static_cast<int32_t>(unsigned_val) + 1) / 2;
+    val = static_cast<int32_t>(unsigned_val / 2 + 1);
   }
   return true;
 }
-- 
2.43.0


From 027fd6976acf4fe921b46de3c4bbd4fccc873380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 29/52] fix: let zero-bit reads succeed

---
 src/rtc_common.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 181568b..9ff431b 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -110,10 +110,11 @@ bool BitBuffer::ReadUInt32(uint32_t& val) {
 }
 
 bool BitBuffer::PeekBits(size_t bit_count, uint32_t& val) {
-  // TODO(nisse): Could allow bit_count == 0 and always return success. But
-  // current code reads one byte beyond end of buffer in the case that
-  // RemainingBitCount() == 0 and bit_count == 0.
-  RTC_DCHECK(bit_count > 0);
+  if (bit_count == 0) {
+    // nothing to read (may be at the end of the buffer)
+    val = 0;
+    return true;
+  }
   if (bit_count > RemainingBitCount() || bit_count > 32) {
     return false;
   }
@@ -144,10 +145,11 @@ bool BitBuffer::PeekBits(size_t bit_count, uint32_t& val) {
 }
 
 bool BitBuffer::PeekBits(size_t bit_count, uint64_t& val) {
-  // TODO(nisse): Could allow bit_count == 0 and always return success. But
-  // current code reads one byte beyond end of buffer in the case that
-  // RemainingBitCount() == 0 and bit_count == 0.
-  RTC_DCHECK(bit_count > 0);
+  if (bit_count == 0) {
+    // nothing to read (may be at the end of the buffer)
+    val = 0;
+    return true;
+  }
   if (bit_count > RemainingBitCount() || bit_count > 64) {
     return false;
   }
-- 
2.43.0


From 27c7473abeef0798692114f2caadd695e3884037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 30/52] fix: handle bit writes of no bits and of more than 64
 bits

---
 src/rtc_common.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 9ff431b..f14725e 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -314,9 +314,13 @@ bool BitBufferWriter::WriteUInt32(uint32_t val) {
 }
 
 bool BitBufferWriter::WriteBits(uint64_t val, size_t bit_count) {
-  if (bit_count > RemainingBitCount()) {
+  if (bit_count > RemainingBitCount() || bit_count > sizeof(uint64_t) * 8) {
     return false;
   }
+  if (bit_count == 0) {
+    // nothing to write (may be at the end of the buffer)
+    return true;
+  }
   size_t total_bits = bit_count;
 
   // For simplicity, push the bits we want to read from val to the highest bits.
-- 
2.43.0


From 34eaa902d9e36eb2a85c293b138486ca6e16f5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 31/52] fix: non-symmetric coding with 2^31 values

---
 src/rtc_common.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index f14725e..8abb29b 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -219,7 +219,8 @@ bool BitBuffer::ReadNonSymmetric(uint32_t num_values, uint32_t& val) {
   RTC_DCHECK_GT(num_values, 0);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   if (!ReadBits(count_bits - 1, val)) {
     return false;
@@ -366,11 +367,12 @@ bool BitBufferWriter::WriteNonSymmetric(uint32_t val, uint32_t num_values) {
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   return val < num_min_bits_values
              ? WriteBits(val, count_bits - 1)
-             : WriteBits(val + num_min_bits_values, count_bits);
+             : WriteBits(uint64_t{val} + num_min_bits_values, count_bits);
 }
 
 size_t BitBufferWriter::SizeNonSymmetricBits(uint32_t val,
@@ -378,7 +380,8 @@ size_t BitBufferWriter::SizeNonSymmetricBits(uint32_t val,
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   return val < num_min_bits_values ? (count_bits - 1) : count_bits;
 }
-- 
2.43.0


From 3cf423d1b5a1f0d305a7226877dbf91ddfecd125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 32/52] fix: do not dump a configuration box NAL unit that did
 not parse

---
 src/h265_configuration_box_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_configuration_box_parser.cc b/src/h265_configuration_box_parser.cc
index 2031427..d1ed942 100644
--- a/src/h265_configuration_box_parser.cc
+++ b/src/h265_configuration_box_parser.cc
@@ -360,7 +360,9 @@ void H265ConfigurationBoxParser::ConfigurationBoxState::fdump(
       fprintf(outfp, "nalUnitLength[%i][%i]: %i", j, i, nalUnitLength[j][i]);
 
       fdump_indent_level(outfp, indent_level);
-      nalUnit[j][i]->fdump(outfp, indent_level, parsing_options);
+      if (nalUnit[j][i] != nullptr) {
+        nalUnit[j][i]->fdump(outfp, indent_level, parsing_options);
+      }
     }
   }
 
-- 
2.43.0


From 2e683c1269c81a217a493575d38955f5014968e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 33/52] fix: read pre_lut_target_value with the output bit
 depth

---
 src/h265_sei_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_sei_parser.cc b/src/h265_sei_parser.cc
index 96e36c4..fb061d4 100644
--- a/src/h265_sei_parser.cc
+++ b/src/h265_sei_parser.cc
@@ -525,6 +525,8 @@ H265SeiColourRemappingInfoParser::parse_payload(BitBuffer* bit_buffer,
       if (payload_state->pre_lut_num_val_minus1[c] > 0) {
         uint32_t bit_depth_used = static_cast<uint32_t>(
             ((payload_state->colour_remap_input_bit_depth + 7) >> 3) << 3);
+        uint32_t target_bit_depth_used = static_cast<uint32_t>(
+            ((payload_state->colour_remap_output_bit_depth + 7) >> 3) << 3);
         for (uint32_t i = 0; i <= payload_state->pre_lut_num_val_minus1[c];
              i++) {
           // pre_lut_coded_value[c][i]  u(v)
@@ -540,7 +542,7 @@ H265SeiColourRemappingInfoParser::parse_payload(BitBuffer* bit_buffer,
           // The number of bits used to represent pre_lut_target_value[c][i]
           // is ((colour_remap_output_bit_depth + 7) >> 3) << 3
           uint32_t target_value;
-          if (!bit_buffer->ReadBits(bit_depth_used, target_value)) {
+          if (!bit_buffer->ReadBits(target_bit_depth_used, target_value)) {
             return nullptr;
           }
           payload_state->pre_lut_target_value[c].push_back(target_value);
-- 
2.43.0


From c9b7ef9053d237d8ac3bde8b9398195c18f93f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 34/52] fix: dump the long-term reference picture lists once

---
 src/h265_slice_parser.cc | 45 ++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index e317ec1..6e81055 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -800,33 +800,32 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
         fdump_indent_level(outfp, indent_level);
         fprintf(outfp, "num_long_term_pics: %i", num_long_term_pics);
 
-        for (uint32_t i = 0; i < num_long_term_sps + num_long_term_pics; i++) {
-          if (i < num_long_term_sps) {
-            if (num_long_term_ref_pics_sps > 1) {
-              fdump_indent_level(outfp, indent_level);
-              fprintf(outfp, "lt_idx_sps {");
-              for (const uint32_t& v : lt_idx_sps) {
-                fprintf(outfp, " %i", v);
-              }
-              fprintf(outfp, " }");
-            }
+        if (num_long_term_sps > 0 && num_long_term_ref_pics_sps > 1) {
+          fdump_indent_level(outfp, indent_level);
+          fprintf(outfp, "lt_idx_sps {");
+          for (const uint32_t& v : lt_idx_sps) {
+            fprintf(outfp, " %i", v);
+          }
+          fprintf(outfp, " }");
+        }
 
-          } else {
-            fdump_indent_level(outfp, indent_level);
-            fprintf(outfp, "poc_lsb_lt {");
-            for (const uint32_t& v : poc_lsb_lt) {
-              fprintf(outfp, " %i", v);
-            }
-            fprintf(outfp, " }");
+        if (num_long_term_pics > 0) {
+          fdump_indent_level(outfp, indent_level);
+          fprintf(outfp, "poc_lsb_lt {");
+          for (const uint32_t& v : poc_lsb_lt) {
+            fprintf(outfp, " %i", v);
+          }
+          fprintf(outfp, " }");
 
-            fdump_indent_level(outfp, indent_level);
-            fprintf(outfp, "used_by_curr_pic_lt_flag {");
-            for (const uint32_t& v : used_by_curr_pic_lt_flag) {
-              fprintf(outfp, " %i", v);
-            }
-            fprintf(outfp, " }");
+          fdump_indent_level(outfp, indent_level);
+          fprintf(outfp, "used_by_curr_pic_lt_flag {");
+          for (const uint32_t& v : used_by_curr_pic_lt_flag) {
+            fprintf(outfp, " %i", v);
           }
+          fprintf(outfp, " }");
+        }
 
+        if (num_long_term_sps > 0 || num_long_term_pics > 0) {
           fdump_indent_level(outfp, indent_level);
           fprintf(outfp, "delta_poc_msb_present_flag {");
           for (const uint32_t& v : delta_poc_msb_present_flag) {
-- 
2.43.0


From 9e9083a2091112ec30c5df29657fcff96dc28577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 35/52] fix: separate the NAL units of an RTP aggregation
 packet by their sizes

---
 include/h265_rtp_ap_parser.h |  6 ++++++
 src/h265_rtp_ap_parser.cc    | 37 ++++++++++++++++++++++++++++++------
 src/h265_rtp_parser.cc       | 15 +++++++++++++++
 3 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/include/h265_rtp_ap_parser.h b/include/h265_rtp_ap_parser.h
index b49fdc0..b118658 100644
--- a/include/h265_rtp_ap_parser.h
+++ b/include/h265_rtp_ap_parser.h
@@ -53,6 +53,12 @@ class H265RtpApParser {
   static std::unique_ptr<RtpApState> ParseRtpAp(
       BitBuffer* bit_buffer,
       struct H265BitstreamParserState* bitstream_parser_state) noexcept;
+
+ private:
+  static std::unique_ptr<RtpApState> ParseRtpApInternal(
+      BitBuffer* bit_buffer,
+      struct H265BitstreamParserState* bitstream_parser_state,
+      bool escaped) noexcept;
 };
 
 }  // namespace h265nal
diff --git a/src/h265_rtp_ap_parser.cc b/src/h265_rtp_ap_parser.cc
index b16af27..5bd5c9c 100644
--- a/src/h265_rtp_ap_parser.cc
+++ b/src/h265_rtp_ap_parser.cc
@@ -21,18 +21,28 @@ namespace h265nal {
 // You can find it on this page:
 // https://tools.ietf.org/html/rfc7798#section-4.4.2
 
-// Unpack RBSP and parse RTP AP state from the supplied buffer.
+// Parse RTP AP state from the supplied buffer. The aggregated NAL units are
+// delimited by their sizes in the (escaped) packet, so they must be separated
+// before unpacking the RBSP of each one.
 std::unique_ptr<H265RtpApParser::RtpApState> H265RtpApParser::ParseRtpAp(
     const uint8_t* data, size_t length,
     struct H265BitstreamParserState* bitstream_parser_state) noexcept {
-  std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
-  BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
-  return ParseRtpAp(&bit_buffer, bitstream_parser_state);
+  BitBuffer bit_buffer(data, length);
+  return ParseRtpApInternal(&bit_buffer, bitstream_parser_state, true);
 }
 
+// Parse RTP AP state from the supplied (already unpacked) buffer.
 std::unique_ptr<H265RtpApParser::RtpApState> H265RtpApParser::ParseRtpAp(
     BitBuffer* bit_buffer,
     struct H265BitstreamParserState* bitstream_parser_state) noexcept {
+  return ParseRtpApInternal(bit_buffer, bitstream_parser_state, false);
+}
+
+std::unique_ptr<H265RtpApParser::RtpApState>
+H265RtpApParser::ParseRtpApInternal(
+    BitBuffer* bit_buffer,
+    struct H265BitstreamParserState* bitstream_parser_state,
+    bool escaped) noexcept {
   // H265 RTP AP pseudo-NAL Unit.
   auto rtp_ap = std::make_unique<RtpApState>();
 
@@ -45,6 +55,8 @@ std::unique_ptr<H265RtpApParser::RtpApState> H265RtpApParser::ParseRtpAp(
     return nullptr;
   }
 
+  // separate the NAL units
+  std::vector<std::vector<uint8_t>> nal_units;
   while (bit_buffer->RemainingBitCount() > 0) {
     // NALU size
     uint32_t nalu_size;
@@ -57,9 +69,22 @@ std::unique_ptr<H265RtpApParser::RtpApState> H265RtpApParser::ParseRtpAp(
     }
     rtp_ap->nal_unit_sizes.push_back(nalu_size);
 
+    std::vector<uint8_t> nal_unit(nalu_size);
+    if (!bit_buffer->ReadBytes(nalu_size, nal_unit.data())) {
+      return nullptr;
+    }
+    if (escaped) {
+      nal_unit = UnescapeRbsp(nal_unit.data(), nal_unit.size());
+    }
+    nal_units.push_back(std::move(nal_unit));
+  }
+
+  for (const auto& nal_unit : nal_units) {
+    BitBuffer nal_bit_buffer(nal_unit.data(), nal_unit.size());
+
     // NALU header
     rtp_ap->nal_unit_headers.push_back(
-        H265NalUnitHeaderParser::ParseNalUnitHeader(bit_buffer));
+        H265NalUnitHeaderParser::ParseNalUnitHeader(&nal_bit_buffer));
     if (rtp_ap->nal_unit_headers.back() == nullptr) {
 #ifdef FPRINT_ERRORS
       fprintf(stderr, "error: cannot ParseNalUnitHeader in rtp ap\n");
@@ -70,7 +95,7 @@ std::unique_ptr<H265RtpApParser::RtpApState> H265RtpApParser::ParseRtpAp(
     // NALU payload
     rtp_ap->nal_unit_payloads.push_back(
         H265NalUnitPayloadParser::ParseNalUnitPayload(
-            bit_buffer, rtp_ap->nal_unit_headers.back()->nal_unit_type,
+            &nal_bit_buffer, rtp_ap->nal_unit_headers.back()->nal_unit_type,
             bitstream_parser_state));
     if (rtp_ap->nal_unit_payloads.back() == nullptr) {
       return nullptr;
diff --git a/src/h265_rtp_parser.cc b/src/h265_rtp_parser.cc
index 4f923af..4f1ae12 100644
--- a/src/h265_rtp_parser.cc
+++ b/src/h265_rtp_parser.cc
@@ -23,6 +23,21 @@ namespace h265nal {
 std::unique_ptr<H265RtpParser::RtpState> H265RtpParser::ParseRtp(
     const uint8_t* data, size_t length,
     struct H265BitstreamParserState* bitstream_parser_state) noexcept {
+  // the NAL units in an AP must be separated before unpacking them
+  BitBuffer packed_bit_buffer(data, length);
+  auto nal_unit_header =
+      H265NalUnitHeaderParser::ParseNalUnitHeader(&packed_bit_buffer);
+  if (nal_unit_header != nullptr && nal_unit_header->nal_unit_type == AP) {
+    auto rtp = std::make_unique<RtpState>();
+    rtp->nal_unit_header = std::move(nal_unit_header);
+    rtp->rtp_ap =
+        H265RtpApParser::ParseRtpAp(data, length, bitstream_parser_state);
+    if (rtp->rtp_ap == nullptr) {
+      return nullptr;
+    }
+    return rtp;
+  }
+
   std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
   BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
   return ParseRtp(&bit_buffer, bitstream_parser_state);
-- 
2.43.0


From 0bf79210a3a7a5373bf365c66d880bbda26b7ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 36/52] fix: report no QP for RTP packets without NAL units

---
 src/h265_utils.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index cf67820..5a92f10 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -79,6 +79,11 @@ std::unique_ptr<int32_t> GetSliceQpYInternal(
 std::unique_ptr<int32_t> H265Utils::GetSliceQpY(
     std::unique_ptr<struct H265RtpParser::RtpState> const& rtp,
     const H265BitstreamParserState* bitstream_parser_state) noexcept {
+  if (rtp == nullptr) {
+    // the packet did not parse
+    return nullptr;
+  }
+
   // get the actual NAL header (not the RTP one)
   std::unique_ptr<struct H265NalUnitPayloadParser::NalUnitPayloadState>*
       payload;
@@ -88,6 +93,9 @@ std::unique_ptr<int32_t> H265Utils::GetSliceQpY(
     nal_unit_type = header->nal_unit_type;
     payload = &rtp->rtp_single->nal_unit_payload;
   } else if (rtp->nal_unit_header->nal_unit_type == AP) {
+    if (rtp->rtp_ap->nal_unit_headers.empty()) {
+      return nullptr;
+    }
     // use the latest NAL unit in the AP
     size_t index = rtp->rtp_ap->nal_unit_headers.size() - 1;
     auto& header = rtp->rtp_ap->nal_unit_headers[index];
-- 
2.43.0


From 7915e9a898db7b9d67b6889fb0fe3e401786dd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 37/52] fix: calculate the slice QP with the PPS in force at
 the slice

---
 include/h265_slice_parser.h | 1 +
 src/h265_slice_parser.cc    | 1 +
 src/h265_utils.cc           | 4 +++-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/h265_slice_parser.h b/include/h265_slice_parser.h
index a3d46a0..d9ae005 100644
--- a/include/h265_slice_parser.h
+++ b/include/h265_slice_parser.h
@@ -67,6 +67,7 @@ class H265SliceSegmentHeaderParser {
     uint32_t tiles_enabled_flag = 0;
     uint32_t entropy_coding_sync_enabled_flag = 0;
     uint32_t slice_segment_header_extension_present_flag = 0;
+    int32_t init_qp_minus26 = 0;
 
     // contents
     uint32_t first_slice_segment_in_pic_flag = 0;
diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 6e81055..d6fdf80 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -147,6 +147,7 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
     return nullptr;
   }
   auto& sps = bitstream_parser_state->sps[sps_id];
+  slice_segment_header->init_qp_minus26 = pps->init_qp_minus26;
 
   if (!slice_segment_header->first_slice_segment_in_pic_flag) {
     slice_segment_header->dependent_slice_segments_enabled_flag =
diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index 5a92f10..5939973 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -66,7 +66,9 @@ std::unique_ptr<int32_t> GetSliceQpYInternal(
   if (pps == nullptr) {
     return nullptr;
   }
-  const auto init_qp_minus26 = pps->init_qp_minus26;
+  // use the value of the PPS in force when the slice was parsed (the PPS may
+  // have been replaced since then)
+  const auto init_qp_minus26 = slice_header->init_qp_minus26;
 
   // Equation 7-54, Section 7.4.7.1
   int32_t slice_qpy = 26 + init_qp_minus26 + slice_qp_delta;
-- 
2.43.0


From 668894fda4513637d7102ee824f6999fe49c3899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 38/52] fix: do not overflow when calculating the slice QP

---
 src/h265_utils.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index 5939973..834f468 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -9,6 +9,7 @@
 #include <cstdint>
 #include <cstring>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <vector>
 
@@ -71,9 +72,15 @@ std::unique_ptr<int32_t> GetSliceQpYInternal(
   const auto init_qp_minus26 = slice_header->init_qp_minus26;
 
   // Equation 7-54, Section 7.4.7.1
-  int32_t slice_qpy = 26 + init_qp_minus26 + slice_qp_delta;
+  int64_t slice_qpy =
+      26 + static_cast<int64_t>(init_qp_minus26) + slice_qp_delta;
+  if (slice_qpy < std::numeric_limits<int32_t>::min() ||
+      slice_qpy > std::numeric_limits<int32_t>::max()) {
+    // invalid QP values
+    return nullptr;
+  }
 
-  return std::make_unique<int32_t>(slice_qpy);
+  return std::make_unique<int32_t>(static_cast<int32_t>(slice_qpy));
 }
 }  // namespace
 
-- 
2.43.0


From 56af6ca2406a5b83574860e112b96439c3c3afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 39/52] fix: refuse palette bit depths outside their range in
 sps_scc_extension

---
 src/h265_sps_scc_extension_parser.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/h265_sps_scc_extension_parser.cc b/src/h265_sps_scc_extension_parser.cc
index ceb31b6..b769cce 100644
--- a/src/h265_sps_scc_extension_parser.cc
+++ b/src/h265_sps_scc_extension_parser.cc
@@ -127,6 +127,11 @@ H265SpsSccExtensionParser::ParseSpsSccExtension(
       uint32_t BitDepth_Y = 8 + bit_depth_luma_minus8;    // Eq 7-4
       uint32_t BitDepth_C = 8 + bit_depth_chroma_minus8;  // Eq 7-6
 
+      if (bit_depth_luma_minus8 > 8 || bit_depth_chroma_minus8 > 8) {
+        // invalid bit depths
+        return nullptr;
+      }
+
       for (uint32_t comp = 0; comp < numComps; comp++) {
         sps_scc_extension->sps_palette_predictor_initializers.emplace_back();
         for (uint32_t i = 0;
-- 
2.43.0


From 94610f5a14d9b40d9aa5925deebe8a06bb558cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 40/52] fix: do not crash on an unparsed slice in the length
 dump

---
 tools/h265nal.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tools/h265nal.cc b/tools/h265nal.cc
index d88a4ab..88bb839 100644
--- a/tools/h265nal.cc
+++ b/tools/h265nal.cc
@@ -505,7 +505,11 @@ int main(int argc, char** argv) {
         uint32_t slice_segment_address = 0;
         uint32_t slice_pic_order_cnt_lsb = 0;
         bool is_slice_segment = h265nal::IsSliceSegment(nal_unit_type);
-        if (is_slice_segment) {
+        // slice segments that cannot be parsed have no slice header
+        bool has_slice_header =
+            is_slice_segment &&
+            nal_unit->nal_unit_payload->slice_segment_layer != nullptr;
+        if (has_slice_header) {
           first_slice_segment_in_pic_flag =
               nal_unit->nal_unit_payload->slice_segment_layer
                   ->slice_segment_header->first_slice_segment_in_pic_flag;
@@ -515,6 +519,8 @@ int main(int argc, char** argv) {
           slice_pic_order_cnt_lsb =
               nal_unit->nal_unit_payload->slice_segment_layer
                   ->slice_segment_header->slice_pic_order_cnt_lsb;
+        }
+        if (is_slice_segment) {
           if (first_slice_segment_in_pic_flag == 1 && total_bytes > 0) {
             // dump last frame info
             bitrate_bps = total_bytes * 8 *
@@ -531,12 +537,12 @@ int main(int argc, char** argv) {
             outfp, "%zu,%zu,%u,%s,%zu,,%s,%s,%s\n", nal_num, frame_num,
             nal_unit_type, nal_unit_type_str.c_str(), nal_length_bytes,
             opt_value(static_cast<int>(first_slice_segment_in_pic_flag),
-                      is_slice_segment)
+                      has_slice_header)
                 .c_str(),
-            opt_value(static_cast<int>(slice_segment_address), is_slice_segment)
+            opt_value(static_cast<int>(slice_segment_address), has_slice_header)
                 .c_str(),
             opt_value(static_cast<int>(slice_pic_order_cnt_lsb),
-                      is_slice_segment)
+                      has_slice_header)
                 .c_str());
         nal_num += 1;
       }
-- 
2.43.0


From 79e242dbe2b03dbd3d119bde825a2f391410b9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 41/52] fix: accept the documented -1 in --nalu-length-bytes

---
 tools/h265nal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h265nal.cc b/tools/h265nal.cc
index 88bb839..17e7fb6 100644
--- a/tools/h265nal.cc
+++ b/tools/h265nal.cc
@@ -299,7 +299,7 @@ int parse_args(int argc, char** argv, arg_options* options) {
         char* end;
         errno = 0;
         long val = strtol(optarg, &end, 10);
-        if (errno != 0 || *end != '\0' || val < 0 || val > INT_MAX) {
+        if (errno != 0 || *end != '\0' || val < -1 || val > INT_MAX) {
           fprintf(stderr, "error: invalid nalu_length_bytes: %s\n", optarg);
           return -1;
         }
-- 
2.43.0


From 6b4eeae9859bb20eabe3c274fe6490b512c16c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 42/52] fix: accept the documented -q option

---
 tools/h265nal.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/h265nal.cc b/tools/h265nal.cc
index 17e7fb6..9d4d0d7 100644
--- a/tools/h265nal.cc
+++ b/tools/h265nal.cc
@@ -197,7 +197,7 @@ int parse_args(int argc, char** argv, arg_options* options) {
       {NULL, 0, NULL, 0}};
 
   // parse arguments
-  while ((c = getopt_long(argc, argv, "di:o:h", longopts, &optindex)) != -1) {
+  while ((c = getopt_long(argc, argv, "dqi:o:h", longopts, &optindex)) != -1) {
     switch (c) {
       case 0:
         // long options that define flag
@@ -215,6 +215,7 @@ int parse_args(int argc, char** argv, arg_options* options) {
         options->debug += 1;
         break;
 
+      case 'q':
       case QUIET_OPTION:
         options->debug = 0;
         break;
-- 
2.43.0


From d63def9736c9802e371e9043e264f377d2fd4c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 43/52] fix: refuse to read a directory as an input file

---
 src/h265_utils.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index 834f468..562a249 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -173,6 +173,13 @@ int H265Utils::ReadFile(const char* filename, std::vector<uint8_t>& buffer) {
     return -1;
   }
   fseek(infp, 0, SEEK_SET);
+  // directories can be opened and report any size, but cannot be read
+  if (fgetc(infp) == EOF) {
+    fprintf(stderr, "Could not read file: \"%s\"\n", filename);
+    fclose(infp);
+    return -1;
+  }
+  fseek(infp, 0, SEEK_SET);
   // read file into buffer
   buffer.resize(static_cast<size_t>(size));
   size_t bytes_read = fread(reinterpret_cast<char*>(buffer.data()), 1,
-- 
2.43.0


From 355ad570ab9de90a0a4aa5a4ca1cd198c33b836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 44/52] fix: refuse an empty conformance window

---
 src/h265_sps_parser.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/h265_sps_parser.cc b/src/h265_sps_parser.cc
index 3668efb..1e84341 100644
--- a/src/h265_sps_parser.cc
+++ b/src/h265_sps_parser.cc
@@ -200,6 +200,18 @@ std::shared_ptr<H265SpsParser::SpsState> H265SpsParser::ParseSps(
               " not in range "
               "[%" PRIu32 ", %" PRIu32 "]\n",
               sps->conf_win_bottom_offset, 0, sps->pic_height_in_luma_samples);
+#endif  // FPRINT_ERRORS
+      return nullptr;
+    }
+    // Section 7.4.3.2.1: the conformance window must not be empty
+    if (static_cast<uint32_t>(sps->getSubWidthC()) *
+                (sps->conf_win_left_offset + sps->conf_win_right_offset) >=
+            sps->pic_width_in_luma_samples ||
+        static_cast<uint32_t>(sps->getSubHeightC()) *
+                (sps->conf_win_top_offset + sps->conf_win_bottom_offset) >=
+            sps->pic_height_in_luma_samples) {
+#ifdef FPRINT_ERRORS
+      fprintf(stderr, "invalid conformance window: empty\n");
 #endif  // FPRINT_ERRORS
       return nullptr;
     }
-- 
2.43.0


From 65942373760e1417382ff1be277ec96b09e5161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 45/52] fix: refuse an explicit NAL unit length that does not
 fit in a size_t

---
 src/h265_bitstream_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index 7865f9d..1235a66 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -35,6 +35,10 @@ bool read_nalu_length(const uint8_t* data, size_t data_length,
   }
   *nalu_length = 0;
   for (size_t i = 0; i < nalu_length_bytes; ++i) {
+    if (*nalu_length > (SIZE_MAX >> 8)) {
+      // the length does not fit in a size_t
+      return false;
+    }
     *nalu_length = (*nalu_length << 8) + data[i];
   }
   return true;
-- 
2.43.0


From 180d8813176048b4145f397f8ecdc8cef74f8d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 46/52] fix: refuse an aggregation packet before it updates the
 parser state

---
 src/h265_rtp_ap_parser.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/h265_rtp_ap_parser.cc b/src/h265_rtp_ap_parser.cc
index 5bd5c9c..829d18a 100644
--- a/src/h265_rtp_ap_parser.cc
+++ b/src/h265_rtp_ap_parser.cc
@@ -76,6 +76,11 @@ H265RtpApParser::ParseRtpApInternal(
     if (escaped) {
       nal_unit = UnescapeRbsp(nal_unit.data(), nal_unit.size());
     }
+    if (nal_unit.size() < 2) {
+      // no space for a NAL unit header: refuse the packet before any of its
+      // NAL units updates the parser state
+      return nullptr;
+    }
     nal_units.push_back(std::move(nal_unit));
   }
 
-- 
2.43.0


From d0ac9212bac8343c95a343372800759ed7026257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 47/52] fix: dump unsigned values with 32 bits as unsigned

---
 src/h265_slice_parser.cc                    |  4 ++--
 src/h265_sps_parser.cc                      |  2 +-
 src/h265_sub_layer_hrd_parameters_parser.cc |  8 ++++----
 src/h265_vps_parser.cc                      |  8 ++++----
 src/h265_vui_parameters_parser.cc           | 14 +++++++-------
 5 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index d6fdf80..5a57d4a 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -837,7 +837,7 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
           fdump_indent_level(outfp, indent_level);
           fprintf(outfp, "delta_poc_msb_cycle_lt {");
           for (const uint32_t& v : delta_poc_msb_cycle_lt) {
-            fprintf(outfp, " %i", v);
+            fprintf(outfp, " %u", v);
           }
           fprintf(outfp, " }");
         }
@@ -989,7 +989,7 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
       fdump_indent_level(outfp, indent_level);
       fprintf(outfp, "entry_point_offset_minus1 {");
       for (const uint32_t& v : entry_point_offset_minus1) {
-        fprintf(outfp, " %i", v);
+        fprintf(outfp, " %u", v);
       }
       fprintf(outfp, " }");
     }
diff --git a/src/h265_sps_parser.cc b/src/h265_sps_parser.cc
index 1e84341..054157a 100644
--- a/src/h265_sps_parser.cc
+++ b/src/h265_sps_parser.cc
@@ -688,7 +688,7 @@ void H265SpsParser::SpsState::fdump(FILE* outfp, int indent_level,
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "sps_max_latency_increase_plus1 {");
   for (const uint32_t& v : sps_max_latency_increase_plus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
diff --git a/src/h265_sub_layer_hrd_parameters_parser.cc b/src/h265_sub_layer_hrd_parameters_parser.cc
index bd87f85..c004a7b 100644
--- a/src/h265_sub_layer_hrd_parameters_parser.cc
+++ b/src/h265_sub_layer_hrd_parameters_parser.cc
@@ -98,28 +98,28 @@ void H265SubLayerHrdParametersParser::SubLayerHrdParametersState::fdump(
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_value_minus1 {");
   for (const uint32_t& v : bit_rate_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "cpb_size_value_minus1 {");
   for (const uint32_t& v : cpb_size_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "cpb_size_du_value_minus1 {");
   for (const uint32_t& v : cpb_size_du_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_du_value_minus1 {");
   for (const uint32_t& v : bit_rate_du_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
diff --git a/src/h265_vps_parser.cc b/src/h265_vps_parser.cc
index 76eff0b..f8ec5b4 100644
--- a/src/h265_vps_parser.cc
+++ b/src/h265_vps_parser.cc
@@ -316,7 +316,7 @@ void H265VpsParser::VpsState::fdump(FILE* outfp, int indent_level) const {
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "vps_max_latency_increase_plus1 {");
   for (const uint32_t& v : vps_max_latency_increase_plus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
@@ -342,17 +342,17 @@ void H265VpsParser::VpsState::fdump(FILE* outfp, int indent_level) const {
           vps_timing_info_present_flag);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "vps_num_units_in_tick: %i", vps_num_units_in_tick);
+  fprintf(outfp, "vps_num_units_in_tick: %u", vps_num_units_in_tick);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "vps_time_scale: %i", vps_time_scale);
+  fprintf(outfp, "vps_time_scale: %u", vps_time_scale);
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "vps_poc_proportional_to_timing_flag: %i",
           vps_poc_proportional_to_timing_flag);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "vps_num_ticks_poc_diff_one_minus1: %i",
+  fprintf(outfp, "vps_num_ticks_poc_diff_one_minus1: %u",
           vps_num_ticks_poc_diff_one_minus1);
 
   fdump_indent_level(outfp, indent_level);
diff --git a/src/h265_vui_parameters_parser.cc b/src/h265_vui_parameters_parser.cc
index 031bf46..25120ab 100644
--- a/src/h265_vui_parameters_parser.cc
+++ b/src/h265_vui_parameters_parser.cc
@@ -498,16 +498,16 @@ void H265VuiParametersParser::VuiParametersState::fdump(
 
   if (default_display_window_flag) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "def_disp_win_left_offset: %i", def_disp_win_left_offset);
+    fprintf(outfp, "def_disp_win_left_offset: %u", def_disp_win_left_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "def_disp_win_right_offset: %i", def_disp_win_right_offset);
+    fprintf(outfp, "def_disp_win_right_offset: %u", def_disp_win_right_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "def_disp_win_top_offset: %i", def_disp_win_top_offset);
+    fprintf(outfp, "def_disp_win_top_offset: %u", def_disp_win_top_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "def_disp_win_bottom_offset: %i",
+    fprintf(outfp, "def_disp_win_bottom_offset: %u",
             def_disp_win_bottom_offset);
   }
 
@@ -517,10 +517,10 @@ void H265VuiParametersParser::VuiParametersState::fdump(
 
   if (vui_timing_info_present_flag) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "vui_num_units_in_tick: %i", vui_num_units_in_tick);
+    fprintf(outfp, "vui_num_units_in_tick: %u", vui_num_units_in_tick);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "vui_time_scale: %i", vui_time_scale);
+    fprintf(outfp, "vui_time_scale: %u", vui_time_scale);
 
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "vui_poc_proportional_to_timing_flag: %i",
@@ -528,7 +528,7 @@ void H265VuiParametersParser::VuiParametersState::fdump(
 
     if (vui_poc_proportional_to_timing_flag) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "vui_num_ticks_poc_diff_one_minus1: %i",
+      fprintf(outfp, "vui_num_ticks_poc_diff_one_minus1: %u",
               vui_num_ticks_poc_diff_one_minus1);
     }
 
-- 
2.43.0


From 8e814c97ed0e130ac3b9f211f0c2998bcdd8161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:08 +0000
Subject: [PATCH 48/52] fix: separate the parts of an RTP packet dump

---
 src/h265_rtp_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h265_rtp_parser.cc b/src/h265_rtp_parser.cc
index 4f1ae12..e2a5f4b 100644
--- a/src/h265_rtp_parser.cc
+++ b/src/h265_rtp_parser.cc
@@ -99,12 +99,15 @@ void H265RtpParser::RtpState::fdump(FILE* outfp, int indent_level,
 
   if (nal_unit_header->nal_unit_type <= 47) {
     // rtp_single()
+    fdump_indent_level(outfp, indent_level);
     rtp_single->fdump(outfp, indent_level, parsing_options);
   } else if (nal_unit_header->nal_unit_type == AP) {
     // rtp_ap()
+    fdump_indent_level(outfp, indent_level);
     rtp_ap->fdump(outfp, indent_level, parsing_options);
   } else if (nal_unit_header->nal_unit_type == FU) {
     // rtp_fu()
+    fdump_indent_level(outfp, indent_level);
     rtp_fu->fdump(outfp, indent_level, parsing_options);
   }
 
-- 
2.43.0


From 8486dd2aab85d80602c7f65d341009618e10f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:13 +0000
Subject: [PATCH 49/52] fix: name the High Throughput and Main 4:4:4 10 Still
 Picture profiles in dumps

---
 src/h265_common.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/h265_common.cc b/src/h265_common.cc
index 704077d..37ae5da 100644
--- a/src/h265_common.cc
+++ b/src/h265_common.cc
@@ -311,6 +311,10 @@ void profileTypeToString(enum ProfileType profile, std::string& str) {
       str = "FRExt";
       break;
 
+    case HIGH_THROUGHPUT:
+      str = "High Throughput";
+      break;
+
     case MULTIVIEW_MAIN:
       str = "Multiview Main";
       break;
@@ -499,7 +503,7 @@ void profileTypeToString(enum ProfileType profile, std::string& str) {
       break;
 
     case MAIN_444_10_STILL_PICTURE:
-      str = "Main (8-bit) 4:4:4 Still Picture";
+      str = "Main 4:4:4 10 Still Picture";
       break;
 
     default:
-- 
2.43.0


From f05c8112d808f707b4456700aa4c06cc80b274e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:25 +0000
Subject: [PATCH 50/52] fix: accept buffers of 4 GiB and more in BitBuffer

All offsets and counts are kept in size_t or uint64_t, but the constructor
asserted that the buffer is smaller than 4 GiB, so that a NAL unit (or a
stream given as one unit) of 4 GiB or more aborted the process.
---
 src/rtc_common.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 8abb29b..fb7f329 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -76,10 +76,7 @@ size_t CountBits(uint64_t val) {
 }
 
 BitBuffer::BitBuffer(const uint8_t* bytes, size_t byte_count)
-    : bytes_(bytes), byte_count_(byte_count), byte_offset_(), bit_offset_() {
-  RTC_DCHECK(static_cast<uint64_t>(byte_count_) <=
-             std::numeric_limits<uint32_t>::max());
-}
+    : bytes_(bytes), byte_count_(byte_count), byte_offset_(), bit_offset_() {}
 
 uint64_t BitBuffer::RemainingBitCount() const {
   return (static_cast<uint64_t>(byte_count_) - byte_offset_) * 8 - bit_offset_;
-- 
2.43.0


From 5a7490066f2938e04056d058ac13df3c5bf9dbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:11 +0000
Subject: [PATCH 51/52] fix: compile the tool without FDUMP_DEFINE

The output file is opened only when FDUMP_DEFINE is set; closing it was
outside of the guard, so that -DH265NAL_SMALL_FOOTPRINT=ON did not build.
---
 tools/h265nal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h265nal.cc b/tools/h265nal.cc
index 9d4d0d7..63f309e 100644
--- a/tools/h265nal.cc
+++ b/tools/h265nal.cc
@@ -558,12 +558,12 @@ int main(int argc, char** argv) {
       }
     }
   }
-#endif  // FDUMP_DEFINE
 
   // clean-up FD
   if (must_close_fp) {
     fclose(outfp);
   }
+#endif  // FDUMP_DEFINE
 
   return 0;
 }
-- 
2.43.0


From 2d53587aebdadf4f3455451001632fbc1bbfaac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:45 +0000
Subject: [PATCH 52/52] fix: restore the position after a failed exp-Golomb
 read in release builds

Seek() was called inside of RTC_CHECK, that is assert, which is empty when
NDEBUG is set: a failed read then left the reader where it stopped.
---
 src/rtc_common.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index fb7f329..de795ed 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -258,7 +258,8 @@ bool BitBuffer::ReadExponentialGolomb(uint32_t& val) {
   // read the value.
   size_t value_bit_count = zero_bit_count + 1;
   if (value_bit_count > 32 || !ReadBits(value_bit_count, val)) {
-    RTC_CHECK(Seek(original_byte_offset, original_bit_offset));
+    // not inside of RTC_CHECK, which is empty in release builds
+    Seek(original_byte_offset, original_bit_offset);
     return false;
   }
   val -= 1;
-- 
2.43.0

