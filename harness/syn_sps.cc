// SPS and PPS with their extensions
#include <algorithm>

#include "syn.h"

namespace vh {

static uint32_t ext_bits(IO& io) {
  uint32_t last = 0;
  if (io.dec) {
    while (io.more()) io.flag("extension_data_flag", last);
    return last;
  }
  int k = 1 + (int)io.r->below(30);
  for (int i = 0; i < k; i++) { last = (uint32_t)io.r->below(2); io.fixed("extension_data_flag", last, 1); }
  return last;
}

void syn_sps_range(IO& io, SpsRange& s) {
  io.flag("transform_skip_rotation_enabled_flag", s.transform_skip_rotation_enabled_flag);
  io.flag("transform_skip_context_enabled_flag", s.transform_skip_context_enabled_flag);
  io.flag("implicit_rdpcm_enabled_flag", s.implicit_rdpcm_enabled_flag);
  io.flag("explicit_rdpcm_enabled_flag", s.explicit_rdpcm_enabled_flag);
  io.flag("extended_precision_processing_flag", s.extended_precision_processing_flag);
  io.flag("intra_smoothing_disabled_flag", s.intra_smoothing_disabled_flag);
  io.flag("high_precision_offsets_enabled_flag", s.high_precision_offsets_enabled_flag);
  io.flag("persistent_rice_adaptation_enabled_flag", s.persistent_rice_adaptation_enabled_flag);
  io.flag("cabac_bypass_alignment_enabled_flag", s.cabac_bypass_alignment_enabled_flag);
}
void syn_sps_multi(IO& io, SpsMulti& s) { io.flag("inter_view_mv_vert_constraint_flag", s.inter_view_mv_vert_constraint_flag); }
void syn_sps_3d(IO& io, Sps3d& s) {
  for (uint32_t d = 0; d <= 1; d++) {
    io.flagv("iv_di_mc_enabled_flag", s.iv_di_mc_enabled_flag, d);
    io.flagv("iv_mv_scal_enabled_flag", s.iv_mv_scal_enabled_flag, d);
    if (d == 0) {
      io.ue("log2_ivmc_sub_pb_size_minus3", s.log2_ivmc_sub_pb_size_minus3, 0, 3);
      io.flag("iv_res_pred_enabled_flag", s.iv_res_pred_enabled_flag);
      io.flag("depth_ref_enabled_flag", s.depth_ref_enabled_flag);
      io.flag("vsp_mc_enabled_flag", s.vsp_mc_enabled_flag);
      io.flag("dbbp_enabled_flag", s.dbbp_enabled_flag);
    } else {
      io.flag("tex_mc_enabled_flag", s.tex_mc_enabled_flag);
      io.ue("log2_texmc_sub_pb_size_minus3", s.log2_texmc_sub_pb_size_minus3, 0, 3);
      io.flag("intra_contour_enabled_flag", s.intra_contour_enabled_flag);
      io.flag("intra_dc_only_wedge_enabled_flag", s.intra_dc_only_wedge_enabled_flag);
      io.flag("cqt_cu_part_pred_enabled_flag", s.cqt_cu_part_pred_enabled_flag);
      io.flag("inter_dc_only_enabled_flag", s.inter_dc_only_enabled_flag);
      io.flag("skip_intra_enabled_flag", s.skip_intra_enabled_flag);
    }
  }
  io.size("iv_di_mc_enabled_flag", s.iv_di_mc_enabled_flag);
  io.size("iv_mv_scal_enabled_flag", s.iv_mv_scal_enabled_flag);
}
void syn_sps_scc(IO& io, SpsScc& s, uint32_t chroma, uint32_t bdl, uint32_t bdc) {
  io.flag("sps_curr_pic_ref_enabled_flag", s.sps_curr_pic_ref_enabled_flag);
  io.flag("palette_mode_enabled_flag", s.palette_mode_enabled_flag, 0.7);
  if (s.palette_mode_enabled_flag) {
    io.E().ue("palette_max_size", s.palette_max_size, 0, 64);
    io.E().ue("delta_palette_max_predictor_size", s.delta_palette_max_predictor_size, 0, 128);
    io.flag("sps_palette_predictor_initializers_present_flag", s.sps_palette_predictor_initializers_present_flag, 0.7);
    if (s.sps_palette_predictor_initializers_present_flag) {
      io.E().ue("sps_num_palette_predictor_initializers_minus1", s.sps_num_palette_predictor_initializers_minus1, 0, 127, 6);
      uint32_t nc = chroma == 0 ? 1 : 3;
      for (uint32_t c = 0; c < nc && !io.over(); c++) {
        if (!io.at("sps_palette_predictor_initializers", s.sps_palette_predictor_initializers, c)) break;
        IO::Scope sc(io, fmt("comp[%u]", c));
        auto& v = s.sps_palette_predictor_initializers[c];
        for (uint32_t i = 0; i <= s.sps_num_palette_predictor_initializers_minus1 && i < 200; i++)
          io.uv("sps_palette_predictor_initializers", v, i, 8 + (int)(c == 0 ? bdl : bdc));
        io.size("sps_palette_predictor_initializers", v);
      }
    }
  }
  io.size("sps_palette_predictor_initializers", s.sps_palette_predictor_initializers);
  io.u("motion_vector_resolution_control_idc", s.motion_vector_resolution_control_idc, 2, 0, 2);
  io.flag("intra_boundary_filtering_disabled_flag", s.intra_boundary_filtering_disabled_flag);
}

void syn_sps(IO& io, Sps& s) {
  io.u("sps_video_parameter_set_id", s.sps_video_parameter_set_id, 4);
  io.u("sps_max_sub_layers_minus1", s.sps_max_sub_layers_minus1, 3, 0, 6, 2);
  io.flag("sps_temporal_id_nesting_flag", s.sps_temporal_id_nesting_flag);
  uint32_t msl = s.sps_max_sub_layers_minus1;
  if (io.sub("profile_tier_level", s.profile_tier_level, true, [] { return std::make_unique<Ptl>(); })) {
    IO::Scope sc(io, "profile_tier_level");
    syn_ptl(io, *s.profile_tier_level, true, msl);
  }
  io.E().ue("sps_seq_parameter_set_id", s.sps_seq_parameter_set_id, 0, 15);
  io.E().ue("chroma_format_idc", s.chroma_format_idc, 0, 3);
  if (s.chroma_format_idc == 3) io.flag("separate_colour_plane_flag", s.separate_colour_plane_flag);
  // the picture size must be a multiple of the minimum coding block size, which is coded later
  uint32_t mincb_log2 = 3;
  uint32_t sw = 1, sh = 1;
  if (s.chroma_format_idc == 1) sw = sh = 2;
  if (s.chroma_format_idc == 2) sw = 2;
  auto dim = [&](const char* n, uint32_t& f) {
    long idx = (long)io.tr.size();
    if (io.force_idx == idx || io.dec) {
      io.E().ue(n, f, 8, 16888);
      return;
    }
    uint32_t unit = io.force_idx >= 0 ? 64 : 1u << mincb_log2;   // with a forced minimum size, a multiple of every one
    uint32_t maxu = 16888 / unit;
    auto it = io.pin.find(n);
    uint32_t u;
    if (it != io.pin.end()) u = (uint32_t)it->second / unit;
    else if (io.r->chance(0.1)) u = 1;
    else if (io.r->chance(0.1)) u = maxu;
    else if (io.r->chance(0.5)) u = 1 + (uint32_t)io.r->below(std::min(maxu, 128u));
    else u = 1 + (uint32_t)io.r->below(maxu);
    int64_t v = (int64_t)u * unit;
    if (io.hostile > 0) { io.E().ue(n, f, 8, 16888, v); return; }
    bool had = it != io.pin.end();
    int64_t old = had ? it->second : 0;
    io.pin[n] = v;
    io.E().ue(n, f, 8, 16888);
    if (had) io.pin[n] = old; else io.pin.erase(n);
  };
  if (io.gen()) {
    auto it = io.pin.find("log2_min_luma_coding_block_size_minus3");
    if (it != io.pin.end()) mincb_log2 = 3 + (uint32_t)it->second;
    else mincb_log2 = 3 + (io.r->chance(0.5) ? 0 : (uint32_t)io.r->below(4));
    if (io.force_idx >= 0) mincb_log2 = 3;
    dim("pic_width_in_luma_samples", s.pic_width_in_luma_samples);
    dim("pic_height_in_luma_samples", s.pic_height_in_luma_samples);
  } else {
    io.emit("pic_width_in_luma_samples", s.pic_width_in_luma_samples);
    io.emit("pic_height_in_luma_samples", s.pic_height_in_luma_samples);
  }
  io.flag("conformance_window_flag", s.conformance_window_flag);
  if (s.conformance_window_flag) {
    // 7.4.3.2.1: SubWidthC * (left + right) < width
    int64_t w = (int64_t)(s.pic_width_in_luma_samples - 1) / sw, h = (int64_t)(s.pic_height_in_luma_samples - 1) / sh;
    int64_t soft = io.gen() && io.r->chance(0.7) ? 16 : INT64_MIN;
    io.E().ue("conf_win_left_offset", s.conf_win_left_offset, 0, w, soft);
    io.E().ue("conf_win_right_offset", s.conf_win_right_offset, 0, std::max<int64_t>(0, w - s.conf_win_left_offset), soft);
    io.E().ue("conf_win_top_offset", s.conf_win_top_offset, 0, h, soft);
    io.E().ue("conf_win_bottom_offset", s.conf_win_bottom_offset, 0, std::max<int64_t>(0, h - s.conf_win_top_offset), soft);
  }
  io.E().ue("bit_depth_luma_minus8", s.bit_depth_luma_minus8, 0, 8);
  io.E().ue("bit_depth_chroma_minus8", s.bit_depth_chroma_minus8, 0, 8);
  io.E().ue("log2_max_pic_order_cnt_lsb_minus4", s.log2_max_pic_order_cnt_lsb_minus4, 0, 12);
  io.flag("sps_sub_layer_ordering_info_present_flag", s.sps_sub_layer_ordering_info_present_flag);
  uint32_t n = s.sps_sub_layer_ordering_info_present_flag ? msl + 1 : 1;
  for (uint32_t i = 0; i < n; i++) {
    io.E().uev("sps_max_dec_pic_buffering_minus1", s.sps_max_dec_pic_buffering_minus1, i, 0, 15);
    io.uev("sps_max_num_reorder_pics", s.sps_max_num_reorder_pics, i, 0, 15);
    io.uev("sps_max_latency_increase_plus1", s.sps_max_latency_increase_plus1, i, 0, 0xFFFFFFFEll);
  }
  io.size("sps_max_dec_pic_buffering_minus1", s.sps_max_dec_pic_buffering_minus1);
  io.size("sps_max_num_reorder_pics", s.sps_max_num_reorder_pics);
  io.size("sps_max_latency_increase_plus1", s.sps_max_latency_increase_plus1);
  if (io.gen() && io.hostile == 0 && io.force_idx != (long)io.tr.size()) {
    bool had = io.pin.count("log2_min_luma_coding_block_size_minus3");
    if (!had) io.pin["log2_min_luma_coding_block_size_minus3"] = mincb_log2 - 3;
    io.E().ue("log2_min_luma_coding_block_size_minus3", s.log2_min_luma_coding_block_size_minus3, 0, 3);
    if (!had) io.pin.erase("log2_min_luma_coding_block_size_minus3");
  } else {
    io.E().ue("log2_min_luma_coding_block_size_minus3", s.log2_min_luma_coding_block_size_minus3, 0, 3);
  }
  uint32_t lmin = s.log2_min_luma_coding_block_size_minus3;
  // CtbLog2SizeY is 4..6 (a value of 3 is not used by any profile)
  int64_t dlo = lmin == 0 ? 1 : 0, dhi = lmin <= 3 ? 3 - lmin : 0;
  if (io.gen() && (io.dec || io.force_idx == (long)io.tr.size())) { dlo = 0; dhi = 3; }
  io.E().ue("log2_diff_max_min_luma_coding_block_size", s.log2_diff_max_min_luma_coding_block_size, dlo, dhi);
  if (io.gen()) { io.tr.back().lo = 0; io.tr.back().hi = 3; }
  if (io.dec) {
    uint32_t m = 8u << lmin;
    if (s.pic_width_in_luma_samples % m || s.pic_height_in_luma_samples % m) io.soft("picture size not a multiple of the coding block size");
    uint32_t ctb = lmin + s.log2_diff_max_min_luma_coding_block_size;
    if (ctb < 1 || ctb > 3) io.soft("coding tree block size");
  }
  io.ue("log2_min_luma_transform_block_size_minus2", s.log2_min_luma_transform_block_size_minus2, 0, 3);
  io.ue("log2_diff_max_min_luma_transform_block_size", s.log2_diff_max_min_luma_transform_block_size, 0, 3);
  io.ue("max_transform_hierarchy_depth_inter", s.max_transform_hierarchy_depth_inter, 0, 4);
  io.ue("max_transform_hierarchy_depth_intra", s.max_transform_hierarchy_depth_intra, 0, 4);
  io.flag("scaling_list_enabled_flag", s.scaling_list_enabled_flag, 0.3);
  if (s.scaling_list_enabled_flag) {
    io.flag("sps_scaling_list_data_present_flag", s.sps_scaling_list_data_present_flag);
    if (io.sub("scaling_list_data", s.scaling_list_data, s.sps_scaling_list_data_present_flag, [] { return std::make_unique<Sld>(); })) {
      IO::Scope sc(io, "scaling_list_data");
      syn_sld(io, *s.scaling_list_data);
    }
  }
  io.flag("amp_enabled_flag", s.amp_enabled_flag);
  io.flag("sample_adaptive_offset_enabled_flag", s.sample_adaptive_offset_enabled_flag);
  io.flag("pcm_enabled_flag", s.pcm_enabled_flag, 0.3);
  if (s.pcm_enabled_flag) {
    io.u("pcm_sample_bit_depth_luma_minus1", s.pcm_sample_bit_depth_luma_minus1, 4);
    io.u("pcm_sample_bit_depth_chroma_minus1", s.pcm_sample_bit_depth_chroma_minus1, 4);
    io.ue("log2_min_pcm_luma_coding_block_size_minus3", s.log2_min_pcm_luma_coding_block_size_minus3, 0, 2);
    io.ue("log2_diff_max_min_pcm_luma_coding_block_size", s.log2_diff_max_min_pcm_luma_coding_block_size, 0, 2);
    io.flag("pcm_loop_filter_disabled_flag", s.pcm_loop_filter_disabled_flag);
  }
  io.E().ue("num_short_term_ref_pic_sets", s.num_short_term_ref_pic_sets, 0, 64, 4);
  for (uint32_t i = 0; i < s.num_short_term_ref_pic_sets && !io.over() && i < 200; i++) {
    if (!io.at("st_ref_pic_set", s.st_ref_pic_set, i)) break;
    if (io.sub("st_ref_pic_set", s.st_ref_pic_set[i], true, [] { return std::make_unique<StRps>(); })) {
      IO::Scope sc(io, fmt("st_ref_pic_set[%u]", i));
      syn_strps(io, *s.st_ref_pic_set[i], i, s.num_short_term_ref_pic_sets, s.st_ref_pic_set, 15);
    }
  }
  io.size("st_ref_pic_set", s.st_ref_pic_set);
  io.flag("long_term_ref_pics_present_flag", s.long_term_ref_pics_present_flag, 0.4);
  if (s.long_term_ref_pics_present_flag) {
    io.E().ue("num_long_term_ref_pics_sps", s.num_long_term_ref_pics_sps, 0, 32, 4);
    for (uint32_t i = 0; i < s.num_long_term_ref_pics_sps && !io.over() && i < 64; i++) {
      io.uv("lt_ref_pic_poc_lsb_sps", s.lt_ref_pic_poc_lsb_sps, i, (int)s.log2_max_pic_order_cnt_lsb_minus4 + 4);
      io.flagv("used_by_curr_pic_lt_sps_flag", s.used_by_curr_pic_lt_sps_flag, i);
    }
  }
  io.size("lt_ref_pic_poc_lsb_sps", s.lt_ref_pic_poc_lsb_sps);
  io.size("used_by_curr_pic_lt_sps_flag", s.used_by_curr_pic_lt_sps_flag);
  io.flag("sps_temporal_mvp_enabled_flag", s.sps_temporal_mvp_enabled_flag);
  io.flag("strong_intra_smoothing_enabled_flag", s.strong_intra_smoothing_enabled_flag);
  io.flag("vui_parameters_present_flag", s.vui_parameters_present_flag, 0.4);
  if (io.sub("vui_parameters", s.vui_parameters, s.vui_parameters_present_flag, [] { return std::make_unique<Vui>(); })) {
    IO::Scope sc(io, "vui_parameters");
    syn_vui(io, *s.vui_parameters, msl);
  }
  io.flag("sps_extension_present_flag", s.sps_extension_present_flag, 0.4);
  if (s.sps_extension_present_flag) {
    io.flag("sps_range_extension_flag", s.sps_range_extension_flag);
    io.flag("sps_multilayer_extension_flag", s.sps_multilayer_extension_flag);
    io.flag("sps_3d_extension_flag", s.sps_3d_extension_flag);
    io.flag("sps_scc_extension_flag", s.sps_scc_extension_flag);
    io.u("sps_extension_4bits", s.sps_extension_4bits, 4, 0, 15, io.gen() && io.r->chance(0.6) ? 0 : 15);
  }
  if (io.sub("sps_range_extension", s.sps_range_extension, s.sps_range_extension_flag, [] { return std::make_unique<SpsRange>(); })) {
    IO::Scope sc(io, "sps_range_extension");
    syn_sps_range(io, *s.sps_range_extension);
  }
  if (io.sub("sps_multilayer_extension", s.sps_multilayer_extension, s.sps_multilayer_extension_flag, [] { return std::make_unique<SpsMulti>(); })) {
    IO::Scope sc(io, "sps_multilayer_extension");
    syn_sps_multi(io, *s.sps_multilayer_extension);
  }
  if (io.sub("sps_3d_extension", s.sps_3d_extension, s.sps_3d_extension_flag, [] { return std::make_unique<Sps3d>(); })) {
    IO::Scope sc(io, "sps_3d_extension");
    syn_sps_3d(io, *s.sps_3d_extension);
  }
  if (io.sub("sps_scc_extension", s.sps_scc_extension, s.sps_scc_extension_flag, [] { return std::make_unique<SpsScc>(); })) {
    IO::Scope sc(io, "sps_scc_extension");
    syn_sps_scc(io, *s.sps_scc_extension, s.chroma_format_idc, s.bit_depth_luma_minus8, s.bit_depth_chroma_minus8);
  }
  if (s.sps_extension_4bits) {
    if (io.gen()) s.sps_extension_data_flag = ext_bits(io);
    else io.emit("sps_extension_data_flag", s.sps_extension_data_flag);
  }
  if (io.gen()) io.trailing();
}

void syn_pps_multi(IO& io, PpsMulti& s) {
  io.flag("poc_reset_info_present_flag", s.poc_reset_info_present_flag);
  io.flag("pps_infer_scaling_list_flag", s.pps_infer_scaling_list_flag);
  if (s.pps_infer_scaling_list_flag) io.u("pps_scaling_list_ref_layer_id", s.pps_scaling_list_ref_layer_id, 6, 0, 62);
  io.ue("num_ref_loc_offsets", s.num_ref_loc_offsets, 0, 62, 4);
  size_t a = 0, b = 0, c = 0;
  const int64_t kOff = 16384;
  for (uint32_t i = 0; i < s.num_ref_loc_offsets && !io.over() && i < 2000; i++) {
    io.uv("ref_loc_offset_layer_id", s.ref_loc_offset_layer_id, i, 6);
    io.flagv("scaled_ref_layer_offset_present_flag", s.scaled_ref_layer_offset_present_flag, i);
    if (i < s.scaled_ref_layer_offset_present_flag.size() && s.scaled_ref_layer_offset_present_flag[i]) {
      io.sev("scaled_ref_layer_left_offset", s.scaled_ref_layer_left_offset, a, -kOff, kOff - 1);
      io.sev("scaled_ref_layer_top_offset", s.scaled_ref_layer_top_offset, a, -kOff, kOff - 1);
      io.sev("scaled_ref_layer_right_offset", s.scaled_ref_layer_right_offset, a, -kOff, kOff - 1);
      io.sev("scaled_ref_layer_bottom_offset", s.scaled_ref_layer_bottom_offset, a, -kOff, kOff - 1);
      a++;
    }
    io.flagv("ref_region_offset_present_flag", s.ref_region_offset_present_flag, i);
    if (i < s.ref_region_offset_present_flag.size() && s.ref_region_offset_present_flag[i]) {
      io.sev("ref_region_left_offset", s.ref_region_left_offset, b, -kOff, kOff - 1);
      io.sev("ref_region_top_offset", s.ref_region_top_offset, b, -kOff, kOff - 1);
      io.sev("ref_region_right_offset", s.ref_region_right_offset, b, -kOff, kOff - 1);
      io.sev("ref_region_bottom_offset", s.ref_region_bottom_offset, b, -kOff, kOff - 1);
      b++;
    }
    io.flagv("resample_phase_set_present_flag", s.resample_phase_set_present_flag, i);
    if (i < s.resample_phase_set_present_flag.size() && s.resample_phase_set_present_flag[i]) {
      // F.7.3.2.3.4: ue(v), 0..31 and 0..63
      io.uev("phase_hor_luma", s.phase_hor_luma, c, 0, 31);
      io.uev("phase_ver_luma", s.phase_ver_luma, c, 0, 31);
      io.uev("phase_hor_chroma_plus8", s.phase_hor_chroma_plus8, c, 0, 63);
      io.uev("phase_ver_chroma_plus8", s.phase_ver_chroma_plus8, c, 0, 63);
      c++;
    }
  }
  io.size("ref_loc_offset_layer_id", s.ref_loc_offset_layer_id);
  io.size("scaled_ref_layer_left_offset", s.scaled_ref_layer_left_offset);
  io.size("scaled_ref_layer_bottom_offset", s.scaled_ref_layer_bottom_offset);
  io.size("ref_region_left_offset", s.ref_region_left_offset);
  io.size("ref_region_bottom_offset", s.ref_region_bottom_offset);
  io.size("phase_hor_luma", s.phase_hor_luma);
  io.size("phase_ver_chroma_plus8", s.phase_ver_chroma_plus8);
  // colour mapping tables are refused by the library (documented as not supported)
  io.u("colour_mapping_enabled_flag", s.colour_mapping_enabled_flag, 1, 0, 0);
}
void syn_pps_scc(IO& io, PpsScc& s) {
  io.flag("pps_curr_pic_ref_enabled_flag", s.pps_curr_pic_ref_enabled_flag, 0.2);
  io.flag("residual_adaptive_colour_transform_enabled_flag", s.residual_adaptive_colour_transform_enabled_flag);
  if (s.residual_adaptive_colour_transform_enabled_flag) {
    io.flag("pps_slice_act_qp_offsets_present_flag", s.pps_slice_act_qp_offsets_present_flag);
    io.se("pps_act_y_qp_offset_plus5", s.pps_act_y_qp_offset_plus5, -7, 17);
    io.se("pps_act_cb_qp_offset_plus5", s.pps_act_cb_qp_offset_plus5, -7, 17);
    io.se("pps_act_cr_qp_offset_plus3", s.pps_act_cr_qp_offset_plus3, -9, 15);
  }
  io.flag("pps_palette_predictor_initializer_present_flag", s.pps_palette_predictor_initializer_present_flag, 0.6);
  if (s.pps_palette_predictor_initializer_present_flag) {
    io.ue("pps_num_palette_predictor_initializer", s.pps_num_palette_predictor_initializer, 0, 128, 5);
    if (s.pps_num_palette_predictor_initializer > 0) {
      io.flag("monochrome_palette_flag", s.monochrome_palette_flag);
      io.E().ue("luma_bit_depth_entry_minus8", s.luma_bit_depth_entry_minus8, 0, 8);
      if (!s.monochrome_palette_flag) io.E().ue("chroma_bit_depth_entry_minus8", s.chroma_bit_depth_entry_minus8, 0, 8);
      uint32_t nc = s.monochrome_palette_flag ? 1 : 3;
      for (uint32_t k = 0; k < nc && !io.over(); k++) {
        if (!io.at("pps_palette_predictor_initializers", s.pps_palette_predictor_initializers, k)) break;
        IO::Scope sc(io, fmt("comp[%u]", k));
        auto& v = s.pps_palette_predictor_initializers[k];
        for (uint32_t i = 0; i < s.pps_num_palette_predictor_initializer && !io.over() && i < 2000; i++)
          io.uv("pps_palette_predictor_initializers", v, i, 8 + (int)(k == 0 ? s.luma_bit_depth_entry_minus8 : s.chroma_bit_depth_entry_minus8));
        io.size("pps_palette_predictor_initializers", v);
      }
    }
  }
  io.size("pps_palette_predictor_initializers", s.pps_palette_predictor_initializers);
}

void syn_pps(IO& io, Pps& s) {
  io.ue("pps_pic_parameter_set_id", s.pps_pic_parameter_set_id, 0, 63, io.gen() && io.r->chance(0.5) ? 5 : 63);
  io.ue("pps_seq_parameter_set_id", s.pps_seq_parameter_set_id, 0, 15);
  io.flag("dependent_slice_segments_enabled_flag", s.dependent_slice_segments_enabled_flag);
  io.flag("output_flag_present_flag", s.output_flag_present_flag);
  io.u("num_extra_slice_header_bits", s.num_extra_slice_header_bits, 3, 0, 7, 2);
  io.flag("sign_data_hiding_enabled_flag", s.sign_data_hiding_enabled_flag);
  io.flag("cabac_init_present_flag", s.cabac_init_present_flag);
  io.ue("num_ref_idx_l0_default_active_minus1", s.num_ref_idx_l0_default_active_minus1, 0, 14, 4);
  io.ue("num_ref_idx_l1_default_active_minus1", s.num_ref_idx_l1_default_active_minus1, 0, 14, 4);
  io.se("init_qp_minus26", s.init_qp_minus26, -74, 25);
  io.flag("constrained_intra_pred_flag", s.constrained_intra_pred_flag);
  io.flag("transform_skip_enabled_flag", s.transform_skip_enabled_flag);
  io.flag("cu_qp_delta_enabled_flag", s.cu_qp_delta_enabled_flag);
  if (s.cu_qp_delta_enabled_flag) io.ue("diff_cu_qp_delta_depth", s.diff_cu_qp_delta_depth, 0, 3);
  io.se("pps_cb_qp_offset", s.pps_cb_qp_offset, -12, 12);
  io.se("pps_cr_qp_offset", s.pps_cr_qp_offset, -12, 12);
  io.flag("pps_slice_chroma_qp_offsets_present_flag", s.pps_slice_chroma_qp_offsets_present_flag);
  io.flag("weighted_pred_flag", s.weighted_pred_flag);
  io.flag("weighted_bipred_flag", s.weighted_bipred_flag);
  io.flag("transquant_bypass_enabled_flag", s.transquant_bypass_enabled_flag);
  io.flag("tiles_enabled_flag", s.tiles_enabled_flag, 0.4);
  io.flag("entropy_coding_sync_enabled_flag", s.entropy_coding_sync_enabled_flag, 0.4);
  if (s.tiles_enabled_flag) {
    // 20 x 22 is only what the levels of Annex A allow
    const bool many = io.dec || (io.gen() && io.r->chance(0.03));
    io.ue("num_tile_columns_minus1", s.num_tile_columns_minus1, 0, many ? 190 : 19, many ? 60 : 5);
    io.ue("num_tile_rows_minus1", s.num_tile_rows_minus1, 0, many ? 190 : 21, many ? 60 : 5);
    io.flag("uniform_spacing_flag", s.uniform_spacing_flag);
    if (!s.uniform_spacing_flag) {
      for (uint32_t i = 0; i < s.num_tile_columns_minus1 && !io.over() && i < 2000; i++) io.uev("column_width_minus1", s.column_width_minus1, i, 0, 1055);
      for (uint32_t i = 0; i < s.num_tile_rows_minus1 && !io.over() && i < 2000; i++) io.uev("row_height_minus1", s.row_height_minus1, i, 0, 1055);
    }
    io.flag("loop_filter_across_tiles_enabled_flag", s.loop_filter_across_tiles_enabled_flag);
  }
  io.size("column_width_minus1", s.column_width_minus1);
  io.size("row_height_minus1", s.row_height_minus1);
  io.flag("pps_loop_filter_across_slices_enabled_flag", s.pps_loop_filter_across_slices_enabled_flag);
  io.flag("deblocking_filter_control_present_flag", s.deblocking_filter_control_present_flag);
  if (s.deblocking_filter_control_present_flag) {
    io.flag("deblocking_filter_override_enabled_flag", s.deblocking_filter_override_enabled_flag);
    io.flag("pps_deblocking_filter_disabled_flag", s.pps_deblocking_filter_disabled_flag);
    if (!s.pps_deblocking_filter_disabled_flag) {
      io.se("pps_beta_offset_div2", s.pps_beta_offset_div2, -6, 6);
      io.se("pps_tc_offset_div2", s.pps_tc_offset_div2, -6, 6);
    }
  }
  io.flag("pps_scaling_list_data_present_flag", s.pps_scaling_list_data_present_flag, 0.15);
  if (io.sub("scaling_list_data", s.scaling_list_data, s.pps_scaling_list_data_present_flag, [] { return std::make_unique<Sld>(); })) {
    IO::Scope sc(io, "scaling_list_data");
    syn_sld(io, *s.scaling_list_data);
  }
  io.flag("lists_modification_present_flag", s.lists_modification_present_flag, 0.15);
  io.ue("log2_parallel_merge_level_minus2", s.log2_parallel_merge_level_minus2, 0, 4);
  io.flag("slice_segment_header_extension_present_flag", s.slice_segment_header_extension_present_flag, 0.3);
  io.flag("pps_extension_present_flag", s.pps_extension_present_flag, 0.4);
  if (s.pps_extension_present_flag) {
    // range and 3D extensions of the PPS are refused by the library (documented as not supported)
    io.u("pps_range_extension_flag", s.pps_range_extension_flag, 1, 0, 0);
    io.flag("pps_multilayer_extension_flag", s.pps_multilayer_extension_flag);
    io.u("pps_3d_extension_flag", s.pps_3d_extension_flag, 1, 0, 0);
    io.flag("pps_scc_extension_flag", s.pps_scc_extension_flag);
    io.u("pps_extension_4bits", s.pps_extension_4bits, 4, 0, 15, io.gen() && io.r->chance(0.6) ? 0 : 15);
  }
  if (io.sub("pps_multilayer_extension", s.pps_multilayer_extension, s.pps_multilayer_extension_flag, [] { return std::make_unique<PpsMulti>(); })) {
    IO::Scope sc(io, "pps_multilayer_extension");
    syn_pps_multi(io, *s.pps_multilayer_extension);
  }
  if (io.sub("pps_scc_extension", s.pps_scc_extension, s.pps_scc_extension_flag, [] { return std::make_unique<PpsScc>(); })) {
    IO::Scope sc(io, "pps_scc_extension");
    syn_pps_scc(io, *s.pps_scc_extension);
  }
  if (s.pps_extension_4bits) {
    if (io.gen()) s.pps_extension_data_flag = ext_bits(io);
    else io.emit("pps_extension_data_flag", s.pps_extension_data_flag);
  }
  if (io.gen()) io.trailing();
}

}  // namespace vh
