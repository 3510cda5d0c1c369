// slice segment header, prediction weight table, SEI, AUD
#include <algorithm>

#include "syn.h"

namespace vh {

int ceil_log2(uint64_t n) {
  int l = 0;
  while (l < 63 && ((uint64_t)1 << l) < n) l++;
  return l;
}
uint32_t ref_chroma_array_type(const Sps& s) { return s.separate_colour_plane_flag ? 0 : s.chroma_format_idc; }
SpsDims ref_dims(const Sps& s) {
  SpsDims d;
  d.min_cb_log2 = s.log2_min_luma_coding_block_size_minus3 + 3;
  d.ctb_log2 = d.min_cb_log2 + s.log2_diff_max_min_luma_coding_block_size;
  uint64_t mc = 1ull << d.min_cb_log2, ct = 1ull << d.ctb_log2;
  uint64_t w = s.pic_width_in_luma_samples, h = s.pic_height_in_luma_samples;
  d.w_min_cb = w / mc;
  d.h_min_cb = h / mc;
  d.w_ctb = (w + ct - 1) / ct;
  d.h_ctb = (h + ct - 1) / ct;
  d.samples = w * h;
  return d;
}

// |n0|, |n1|: number of active entries (n1 = 0 for P slices)
void syn_pwt(IO& io, Pwt& s, uint32_t chroma, uint32_t n0, uint32_t n1) {
  io.ue("luma_log2_weight_denom", s.luma_log2_weight_denom, 0, 7);
  if (chroma != 0)
    io.se("delta_chroma_log2_weight_denom", s.delta_chroma_log2_weight_denom, -(int64_t)s.luma_log2_weight_denom, 7 - (int64_t)s.luma_log2_weight_denom);
  auto list = [&](uint32_t n, const char* nlf, std::vector<uint32_t>& lf, const char* ncf, std::vector<uint32_t>& cf, const char* ndl,
                  std::vector<int32_t>& dl, const char* nlo, std::vector<int32_t>& lo, const char* ndc, std::vector<std::vector<int32_t>>& dc,
                  const char* noc, std::vector<std::vector<int32_t>>& oc) {
    for (uint32_t i = 0; i < n && !io.over(); i++) io.flagv(nlf, lf, i);
    if (chroma != 0)
      for (uint32_t i = 0; i < n && !io.over(); i++) io.flagv(ncf, cf, i);
    size_t a = 0, b = 0;
    for (uint32_t i = 0; i < n && !io.over(); i++) {
      if (i < lf.size() && lf[i]) {
        io.sev(ndl, dl, a, -128, 127);
        io.sev(nlo, lo, a, -128, 127);
        a++;
      }
      if (chroma != 0 && i < cf.size() && cf[i]) {
        if (io.at(ndc, dc, b) && io.at(noc, oc, b)) {
          IO::Scope sc(io, fmt("%s[%zu]", ndc, b));
          for (size_t j = 0; j < 2; j++) {
            io.sev(ndc, dc[b], j, -128, 127);
            io.sev(noc, oc[b], j, -512, 511);
          }
        }
        b++;
      }
    }
    io.size(nlf, lf);
    io.size(ncf, cf);
    io.size(ndl, dl);
    io.size(nlo, lo);
    io.size(ndc, dc);
    io.size(noc, oc);
  };
  list(n0, "luma_weight_l0_flag", s.luma_weight_l0_flag, "chroma_weight_l0_flag", s.chroma_weight_l0_flag, "delta_luma_weight_l0",
       s.delta_luma_weight_l0, "luma_offset_l0", s.luma_offset_l0, "delta_chroma_weight_l0", s.delta_chroma_weight_l0,
       "delta_chroma_offset_l0", s.delta_chroma_offset_l0);
  list(n1, "luma_weight_l1_flag", s.luma_weight_l1_flag, "chroma_weight_l1_flag", s.chroma_weight_l1_flag, "delta_luma_weight_l1",
       s.delta_luma_weight_l1, "luma_offset_l1", s.luma_offset_l1, "delta_chroma_weight_l1", s.delta_chroma_weight_l1,
       "delta_chroma_offset_l1", s.delta_chroma_offset_l1);
}

// NumPicTotalCurr (7-55), as far as it is known from the header
static uint32_t num_pic_total_curr(const Slice& s, const Sps& sps, const Pps& pps) {
  const StRps* r = nullptr;
  if (!s.short_term_ref_pic_set_sps_flag) r = s.st_ref_pic_set.get();
  else if (s.short_term_ref_pic_set_idx < sps.st_ref_pic_set.size()) r = sps.st_ref_pic_set[s.short_term_ref_pic_set_idx].get();
  uint32_t n = 0;
  if (r) {
    for (uint32_t v : r->used_by_curr_pic_s0_flag) n += v;
    for (uint32_t v : r->used_by_curr_pic_s1_flag) n += v;
  }
  for (size_t i = 0; i < s.num_long_term_sps && i < 64; i++) {
    uint32_t idx = i < s.lt_idx_sps.size() ? s.lt_idx_sps[i] : 0;
    if (idx < sps.used_by_curr_pic_lt_sps_flag.size()) n += sps.used_by_curr_pic_lt_sps_flag[idx];
  }
  for (uint32_t v : s.used_by_curr_pic_lt_flag) n += v;
  if (pps.pps_scc_extension && pps.pps_scc_extension->pps_curr_pic_ref_enabled_flag) n++;
  return n;
}

void syn_slice(IO& io, Slice& s, uint32_t nut, const Sps& sps, const Pps& pps) {
  io.derived("nal_unit_type", s.nal_unit_type, nut);
  SpsDims d = ref_dims(sps);
  uint64_t size_ctb = d.w_ctb * d.h_ctb;
  if (io.gen() && size_ctb < 2 && io.force_idx != (long)io.tr.size() && io.hostile == 0) {
    io.pin["first_slice_segment_in_pic_flag"] = 1;
    io.flag("first_slice_segment_in_pic_flag", s.first_slice_segment_in_pic_flag);
    io.pin.erase("first_slice_segment_in_pic_flag");
  } else {
    io.flag("first_slice_segment_in_pic_flag", s.first_slice_segment_in_pic_flag, 0.6);
  }
  if (nut >= 16 && nut <= 23) io.flag("no_output_of_prior_pics_flag", s.no_output_of_prior_pics_flag);
  io.ue("slice_pic_parameter_set_id", s.slice_pic_parameter_set_id, pps.pps_pic_parameter_set_id, pps.pps_pic_parameter_set_id);
  if (!s.first_slice_segment_in_pic_flag) {
    if (pps.dependent_slice_segments_enabled_flag) io.flag("dependent_slice_segment_flag", s.dependent_slice_segment_flag, 0.3);
    io.u("slice_segment_address", s.slice_segment_address, ceil_log2(size_ctb), size_ctb > 1 ? 1 : 0, (int64_t)(size_ctb ? size_ctb - 1 : 0));
    if (io.dec && size_ctb < 2) io.soft("second slice segment of a picture of one block");
  } else if (!io.gen()) {
    io.derived("slice_segment_address", s.slice_segment_address, 0);
  }
  if (!io.gen()) io.derived("dependent_slice_segment_flag", s.dependent_slice_segment_flag, 0);
  if (!s.dependent_slice_segment_flag) {
    for (uint32_t i = 0; i < pps.num_extra_slice_header_bits; i++) io.flagv("slice_reserved_flag", s.slice_reserved_flag, i);
    io.size("slice_reserved_flag", s.slice_reserved_flag);
    bool irap = nut >= 16 && nut <= 23;
    int64_t lo = irap ? 2 : 0;
    if (io.gen() && (io.dec || io.r->chance(0.05))) lo = 0;
    io.ue("slice_type", s.slice_type, lo, 2);
    if (pps.output_flag_present_flag) io.flag("pic_output_flag", s.pic_output_flag);
    if (sps.separate_colour_plane_flag) io.u("colour_plane_id", s.colour_plane_id, 2, 0, 2);
    if (nut != 19 && nut != 20) {
      io.u("slice_pic_order_cnt_lsb", s.slice_pic_order_cnt_lsb, (int)sps.log2_max_pic_order_cnt_lsb_minus4 + 4);
      io.flag("short_term_ref_pic_set_sps_flag", s.short_term_ref_pic_set_sps_flag, sps.num_short_term_ref_pic_sets > 0 ? 0.6 : 0.0);
      if (io.sub("st_ref_pic_set", s.st_ref_pic_set, !s.short_term_ref_pic_set_sps_flag, [] { return std::make_unique<StRps>(); })) {
        IO::Scope sc(io, "st_ref_pic_set");
        syn_strps(io, *s.st_ref_pic_set, sps.num_short_term_ref_pic_sets, sps.num_short_term_ref_pic_sets, sps.st_ref_pic_set, 15);
      }
      if (s.short_term_ref_pic_set_sps_flag && sps.num_short_term_ref_pic_sets > 1)
        io.u("short_term_ref_pic_set_idx", s.short_term_ref_pic_set_idx, ceil_log2(sps.num_short_term_ref_pic_sets), 0, sps.num_short_term_ref_pic_sets - 1);
      else
        io.derived("short_term_ref_pic_set_idx", s.short_term_ref_pic_set_idx, 0);
      if (sps.long_term_ref_pics_present_flag) {
        if (sps.num_long_term_ref_pics_sps > 0) io.ue("num_long_term_sps", s.num_long_term_sps, 0, sps.num_long_term_ref_pics_sps, 3);
        io.ue("num_long_term_pics", s.num_long_term_pics, 0, 32, 3);
        size_t li = 0, pi = 0, ci = 0;
        uint64_t n = (uint64_t)s.num_long_term_sps + s.num_long_term_pics;
        for (uint64_t i = 0; i < n && !io.over() && i < 200; i++) {
          if (i < s.num_long_term_sps) {
            if (sps.num_long_term_ref_pics_sps > 1)
              io.uv("lt_idx_sps", s.lt_idx_sps, li++, ceil_log2(sps.num_long_term_ref_pics_sps), 0, sps.num_long_term_ref_pics_sps - 1);
          } else {
            io.uv("poc_lsb_lt", s.poc_lsb_lt, pi, (int)sps.log2_max_pic_order_cnt_lsb_minus4 + 4);
            io.flagv("used_by_curr_pic_lt_flag", s.used_by_curr_pic_lt_flag, pi);
            pi++;
          }
          io.flagv("delta_poc_msb_present_flag", s.delta_poc_msb_present_flag, i);
          if (i < s.delta_poc_msb_present_flag.size() && s.delta_poc_msb_present_flag[i])
            io.uev("delta_poc_msb_cycle_lt", s.delta_poc_msb_cycle_lt, ci++, 0, 0xFFFFFFFEll, 300);
        }
      }
      io.size("lt_idx_sps", s.lt_idx_sps);
      io.size("poc_lsb_lt", s.poc_lsb_lt);
      io.size("used_by_curr_pic_lt_flag", s.used_by_curr_pic_lt_flag);
      io.size("delta_poc_msb_present_flag", s.delta_poc_msb_present_flag);
      io.size("delta_poc_msb_cycle_lt", s.delta_poc_msb_cycle_lt);
      if (sps.sps_temporal_mvp_enabled_flag) io.flag("slice_temporal_mvp_enabled_flag", s.slice_temporal_mvp_enabled_flag, 0.7);
    }
    uint32_t chroma = ref_chroma_array_type(sps);
    if (sps.sample_adaptive_offset_enabled_flag) {
      io.flag("slice_sao_luma_flag", s.slice_sao_luma_flag);
      if (chroma != 0) io.flag("slice_sao_chroma_flag", s.slice_sao_chroma_flag);
    }
    bool b = s.slice_type == 0, p = s.slice_type == 1;
    if (p || b) {
      io.flag("num_ref_idx_active_override_flag", s.num_ref_idx_active_override_flag);
      if (s.num_ref_idx_active_override_flag) {
        io.ue("num_ref_idx_l0_active_minus1", s.num_ref_idx_l0_active_minus1, 0, 14, 4);
        if (b) io.ue("num_ref_idx_l1_active_minus1", s.num_ref_idx_l1_active_minus1, 0, 14, 4);
      } else {
        // inferred (7.4.7.1)
        io.derived("num_ref_idx_l0_active_minus1 inferred", s.num_ref_idx_l0_active_minus1, pps.num_ref_idx_l0_default_active_minus1);
        if (b) io.derived("num_ref_idx_l1_active_minus1 inferred", s.num_ref_idx_l1_active_minus1, pps.num_ref_idx_l1_default_active_minus1);
      }
      // ref_pic_lists_modification() is documented as not supported
      if (io.gen() && pps.lists_modification_present_flag && num_pic_total_curr(s, sps, pps) > 1) { if (io.dec) io.stop(IO::D_UNKNOWN, "ref_pic_lists_modification"); io.truncated = true; throw StopGen(); }
      if (b) io.flag("mvd_l1_zero_flag", s.mvd_l1_zero_flag);
      if (pps.cabac_init_present_flag) io.flag("cabac_init_flag", s.cabac_init_flag);
      if (s.slice_temporal_mvp_enabled_flag) {
        if (b) io.flag("collocated_from_l0_flag", s.collocated_from_l0_flag);
        else io.derived("collocated_from_l0_flag inferred", s.collocated_from_l0_flag, 1);
        if ((s.collocated_from_l0_flag && s.num_ref_idx_l0_active_minus1 > 0) || (!s.collocated_from_l0_flag && s.num_ref_idx_l1_active_minus1 > 0))
          io.ue("collocated_ref_idx", s.collocated_ref_idx, 0, s.collocated_from_l0_flag ? s.num_ref_idx_l0_active_minus1 : s.num_ref_idx_l1_active_minus1);
        else
          io.derived("collocated_ref_idx inferred", s.collocated_ref_idx, 0);
      }
      bool w = (pps.weighted_pred_flag && p) || (pps.weighted_bipred_flag && b);
      if (io.sub("pred_weight_table", s.pred_weight_table, w, [] { return std::make_unique<Pwt>(); })) {
        IO::Scope sc(io, "pred_weight_table");
        syn_pwt(io, *s.pred_weight_table, chroma, s.num_ref_idx_l0_active_minus1 + 1, b ? s.num_ref_idx_l1_active_minus1 + 1 : 0);
      }
      io.ue("five_minus_max_num_merge_cand", s.five_minus_max_num_merge_cand, 0, 4);
      if (sps.sps_scc_extension && sps.sps_scc_extension->motion_vector_resolution_control_idc == 2) io.flag("use_integer_mv_flag", s.use_integer_mv_flag);
    }
    io.se("slice_qp_delta", s.slice_qp_delta, -74 - 26, 77, 30);
    if (pps.pps_slice_chroma_qp_offsets_present_flag) {
      io.se("slice_cb_qp_offset", s.slice_cb_qp_offset, -12, 12);
      io.se("slice_cr_qp_offset", s.slice_cr_qp_offset, -12, 12);
    }
    if (pps.pps_scc_extension && pps.pps_scc_extension->pps_slice_act_qp_offsets_present_flag) {
      io.se("slice_act_y_qp_offset", s.slice_act_y_qp_offset, -12, 12);
      io.se("slice_act_cb_qp_offset", s.slice_act_cb_qp_offset, -12, 12);
      io.se("slice_act_cr_qp_offset", s.slice_act_cr_qp_offset, -12, 12);
    }
    if (pps.deblocking_filter_override_enabled_flag) io.flag("deblocking_filter_override_flag", s.deblocking_filter_override_flag);
    if (s.deblocking_filter_override_flag) {
      io.flag("slice_deblocking_filter_disabled_flag", s.slice_deblocking_filter_disabled_flag);
      if (!s.slice_deblocking_filter_disabled_flag) {
        io.se("slice_beta_offset_div2", s.slice_beta_offset_div2, -6, 6);
        io.se("slice_tc_offset_div2", s.slice_tc_offset_div2, -6, 6);
      }
    } else {
      io.derived("slice_deblocking_filter_disabled_flag inferred", s.slice_deblocking_filter_disabled_flag, pps.pps_deblocking_filter_disabled_flag);
    }
    if (pps.pps_loop_filter_across_slices_enabled_flag &&
        (s.slice_sao_luma_flag || s.slice_sao_chroma_flag || !s.slice_deblocking_filter_disabled_flag))
      io.flag("slice_loop_filter_across_slices_enabled_flag", s.slice_loop_filter_across_slices_enabled_flag);
  }
  if (pps.tiles_enabled_flag || pps.entropy_coding_sync_enabled_flag) {
    uint64_t cols = (uint64_t)pps.num_tile_columns_minus1 + 1, rows = (uint64_t)pps.num_tile_rows_minus1 + 1;
    int64_t mx = !pps.tiles_enabled_flag ? (int64_t)d.h_ctb - 1
                 : !pps.entropy_coding_sync_enabled_flag ? (int64_t)(cols * rows) - 1 : (int64_t)(cols * d.h_ctb) - 1;
    io.E().ue("num_entry_point_offsets", s.num_entry_point_offsets, 0, mx, 4);
    if (s.num_entry_point_offsets > 0) {
      io.E().ue("offset_len_minus1", s.offset_len_minus1, 0, 31);
      for (uint32_t i = 0; i < s.num_entry_point_offsets && !io.over(); i++)
        io.uv("entry_point_offset_minus1", s.entry_point_offset_minus1, i, (int)std::min<uint32_t>(s.offset_len_minus1, 31) + 1);
    }
  }
  io.size("entry_point_offset_minus1", s.entry_point_offset_minus1);
  if (pps.slice_segment_header_extension_present_flag) {
    io.ue("slice_segment_header_extension_length", s.slice_segment_header_extension_length, 0, 256, 6);
    for (uint32_t i = 0; i < s.slice_segment_header_extension_length && !io.over() && i < 1000; i++)
      io.uv("slice_segment_header_extension_data_byte", s.slice_segment_header_extension_data_byte, i, 8);
  }
  io.size("slice_segment_header_extension_data_byte", s.slice_segment_header_extension_data_byte);
  if (io.gen() && !io.dec) io.w.trailing();  // byte_alignment()
}

// ---------------------------------------------------------------- SEI
typedef H265SeiUserDataRegisteredItuTT35Parser::H265SeiUserDataRegisteredItuTT35State SeiT35;
typedef H265SeiUserDataUnregisteredParser::H265SeiUserDataUnregisteredState SeiUnreg;
typedef H265SeiAlphaChannelInfoParser::H265SeiAlphaChannelInfoState SeiAlpha;
typedef H265SeiMasteringDisplayColourVolumeParser::H265SeiMasteringDisplayColourVolumeState SeiMdcv;
typedef H265SeiContentLightLevelInfoParser::H265SeiContentLightLevelInfoState SeiCll;
typedef H265SeiKneeFunctionInfoParser::H265SeiKneeFunctionInfoState SeiKnee;
typedef H265SeiColourRemappingInfoParser::H265SeiColourRemappingInfoState SeiRemap;
typedef H265SeiContentColourVolumeParser::H265SeiContentColourVolumeState SeiCcv;
typedef H265SeiAlternativeTransferCharacteristicsParser::H265SeiAlternativeTransferCharacteristicsState SeiAtc;
typedef H265SeiAmbientViewingEnvironmentParser::H265SeiAmbientViewingEnvironmentState SeiAve;
typedef H265SeiUnknownParser::H265SeiUnknownState SeiUnk;

static void body_t35(IO& io, SeiT35& s, size_t n) {
  io.u("itu_t_t35_country_code", s.itu_t_t35_country_code, 8, 0, 255, io.gen() && n >= 2 && io.r->chance(0.3) ? INT64_MIN : 254);
  if (io.gen() && n < 2 && s.itu_t_t35_country_code == 255) { if (io.dec) io.stop(IO::D_END, "extension byte"); io.truncated = true; throw StopGen(); }
  size_t k = n ? n - 1 : 0;
  if (s.itu_t_t35_country_code == 255) { io.u("itu_t_t35_country_code_extension_byte", s.itu_t_t35_country_code_extension_byte, 8); k = k ? k - 1 : 0; }
  if (!io.gen()) k = s.payload.size();
  for (size_t i = 0; i < k && !io.over(); i++) io.uv("payload", s.payload, i, 8);
  io.size("payload", s.payload);
}
static void body_unreg(IO& io, SeiUnreg& s, size_t n) {
  if (io.gen()) {
    uint64_t a[4];
    for (int i = 0; i < 4; i++) { uint32_t x = 0; io.nodump().u("uuid_word", x, 32, 0, 0xFFFFFFFFll); a[i] = x; }
    s.uuid_iso_iec_11578_1 = (a[0] << 32) | a[1];
    s.uuid_iso_iec_11578_2 = (a[2] << 32) | a[3];
  } else {
    io.emit("uuid1", (int64_t)s.uuid_iso_iec_11578_1);
    io.emit("uuid2", (int64_t)s.uuid_iso_iec_11578_2);
  }
  size_t k = io.gen() ? n - 16 : s.payload.size();
  for (size_t i = 0; i < k && !io.over(); i++) io.uv("payload", s.payload, i, 8);
  io.size("payload", s.payload);
}
static void body_alpha(IO& io, SeiAlpha& s) {
  io.flag("alpha_channel_cancel_flag", s.alpha_channel_cancel_flag, 0.2);
  if (s.alpha_channel_cancel_flag) return;
  io.u("alpha_channel_use_idc", s.alpha_channel_use_idc, 3);
  io.u("alpha_channel_bit_depth_minus8", s.alpha_channel_bit_depth_minus8, 3);
  int n = (int)(s.alpha_channel_bit_depth_minus8 & 7) + 9;
  io.u("alpha_transparent_value", s.alpha_transparent_value, n);
  io.u("alpha_opaque_value", s.alpha_opaque_value, n);
  io.flag("alpha_channel_incr_flag", s.alpha_channel_incr_flag);
  io.flag("alpha_channel_clip_flag", s.alpha_channel_clip_flag);
  if (s.alpha_channel_clip_flag) io.flag("alpha_channel_clip_type_flag", s.alpha_channel_clip_type_flag);
}
template <class T, size_t N> static void arr(IO& io, const char* n, T (&v)[N], size_t i, int bits) {
  T x = v[i];
  io.u(n, x, bits, 0, -1, INT64_MIN, (long)i);
  v[i] = x;
}
static void body_mdcv(IO& io, SeiMdcv& s) {
  for (size_t c = 0; c < 3; c++) {
    arr(io, "display_primaries_x", s.display_primaries_x, c, 16);
    arr(io, "display_primaries_y", s.display_primaries_y, c, 16);
  }
  io.u("white_point_x", s.white_point_x, 16);
  io.u("white_point_y", s.white_point_y, 16);
  io.u("max_display_mastering_luminance", s.max_display_mastering_luminance, 32);
  io.u("min_display_mastering_luminance", s.min_display_mastering_luminance, 32);
}
static void body_cll(IO& io, SeiCll& s) {
  io.u("max_content_light_level", s.max_content_light_level, 16);
  io.u("max_pic_average_light_level", s.max_pic_average_light_level, 16);
}
static void body_knee(IO& io, SeiKnee& s) {
  io.ue("knee_function_id", s.knee_function_id, 0, 0xFFFFFFFEll);
  io.flag("knee_function_cancel_flag", s.knee_function_cancel_flag, 0.2);
  if (!s.knee_function_cancel_flag) {
    io.flag("knee_function_persistence_flag", s.knee_function_persistence_flag);
    io.u("input_d_range", s.input_d_range, 32);
    io.u("input_disp_luminance", s.input_disp_luminance, 32);
    io.u("output_d_range", s.output_d_range, 32);
    io.u("output_disp_luminance", s.output_disp_luminance, 32);
    io.ue("num_knee_points_minus1", s.num_knee_points_minus1, 0, 998, 5);
    for (uint32_t i = 0; i <= s.num_knee_points_minus1 && !io.over() && i < 2000; i++) {
      io.uv("input_knee_point", s.input_knee_point, i, 10);
      io.uv("output_knee_point", s.output_knee_point, i, 10);
    }
  }
  io.size("input_knee_point", s.input_knee_point);
  io.size("output_knee_point", s.output_knee_point);
}
static void body_lut(IO& io, const char* nn, uint8_t (&num)[3], const char* nc, std::vector<std::vector<uint32_t>>& cv, int cb, const char* nt,
                     std::vector<std::vector<uint32_t>>& tv, int tb) {
  for (size_t c = 0; c < 3 && !io.over(); c++) {
    uint8_t x = num[c];
    io.u(nn, x, 8, 0, 255, io.gen() && io.r->chance(0.9) ? 4 : INT64_MIN, (long)c);
    num[c] = x;
    if (!io.at(nc, cv, c) || !io.at(nt, tv, c)) continue;
    IO::Scope sc(io, fmt("%s[%zu]", nc, c));
    if (num[c] > 0)
      for (uint32_t i = 0; i <= num[c] && !io.over(); i++) {
        io.uv(nc, cv[c], i, cb);
        io.uv(nt, tv[c], i, tb);
      }
    io.size(nc, cv[c]);
    io.size(nt, tv[c]);
  }
}
static void body_remap(IO& io, SeiRemap& s) {
  io.ue("colour_remap_id", s.colour_remap_id, 0, 0xFFFFFFFEll);
  io.flag("colour_remap_cancel_flag", s.colour_remap_cancel_flag, 0.15);
  if (s.colour_remap_cancel_flag) return;
  io.flag("colour_remap_persistence_flag", s.colour_remap_persistence_flag);
  io.flag("colour_remap_video_signal_info_present_flag", s.colour_remap_video_signal_info_present_flag);
  if (s.colour_remap_video_signal_info_present_flag) {
    io.flag("colour_remap_full_range_flag", s.colour_remap_full_range_flag);
    io.u("colour_remap_primaries", s.colour_remap_primaries, 8);
    io.u("colour_remap_transfer_function", s.colour_remap_transfer_function, 8);
    io.u("colour_remap_matrix_coefficients", s.colour_remap_matrix_coefficients, 8);
  }
  io.u("colour_remap_input_bit_depth", s.colour_remap_input_bit_depth, 8, 1, 32);
  io.u("colour_remap_output_bit_depth", s.colour_remap_output_bit_depth, 8, 1, 32);
  int ib = ((s.colour_remap_input_bit_depth + 7) >> 3) << 3, ob = ((s.colour_remap_output_bit_depth + 7) >> 3) << 3;
  body_lut(io, "pre_lut_num_val_minus1", s.pre_lut_num_val_minus1, "pre_lut_coded_value", s.pre_lut_coded_value, ib, "pre_lut_target_value",
           s.pre_lut_target_value, ob);
  io.flag("colour_remap_matrix_present_flag", s.colour_remap_matrix_present_flag);
  if (s.colour_remap_matrix_present_flag) {
    io.u("log2_matrix_denom", s.log2_matrix_denom, 4);
    for (size_t c = 0; c < 3; c++) {
      if (!io.at("colour_remap_coeffs", s.colour_remap_coeffs, c)) break;
      IO::Scope sc(io, fmt("row[%zu]", c));
      for (size_t i = 0; i < 3; i++) io.sev("colour_remap_coeffs", s.colour_remap_coeffs[c], i, -32768, 32767);
    }
  }
  body_lut(io, "post_lut_num_val_minus1", s.post_lut_num_val_minus1, "post_lut_coded_value", s.post_lut_coded_value, ob, "post_lut_target_value",
           s.post_lut_target_value, ob);
}
static void body_ccv(IO& io, SeiCcv& s) {
  io.flag("ccv_cancel_flag", s.ccv_cancel_flag, 0.2);
  if (s.ccv_cancel_flag) return;
  io.flag("ccv_persistence_flag", s.ccv_persistence_flag);
  io.flag("ccv_primaries_present_flag", s.ccv_primaries_present_flag);
  io.flag("ccv_min_luminance_value_present_flag", s.ccv_min_luminance_value_present_flag);
  io.flag("ccv_max_luminance_value_present_flag", s.ccv_max_luminance_value_present_flag);
  io.flag("ccv_avg_luminance_value_present_flag", s.ccv_avg_luminance_value_present_flag);
  io.u("ccv_reserved_zero_2bits", s.ccv_reserved_zero_2bits, 2);
  if (s.ccv_primaries_present_flag)
    for (size_t c = 0; c < 3; c++)
      for (int k = 0; k < 2; k++) {
        const char* n = k ? "ccv_primaries_y" : "ccv_primaries_x";
        int32_t& f = k ? s.ccv_primaries_y[c] : s.ccv_primaries_x[c];
        if (io.gen()) {  // i(32)
          int64_t v = io.dec ? (int64_t)(int32_t)io.decode(n, 'u', 32) : io.choose(n, -5000000, 5000000, INT64_MIN, 0x7FFFFFFF, 's');
          f = (int32_t)v;
          io.code(n, 'u', 32, (int64_t)(uint32_t)f, 0, 0xFFFFFFFFll, (long)c);
          io.tr.back().val = f;
        } else {
          io.emit(fmt("%s[%zu]", n, c), f);
        }
      }
  if (s.ccv_min_luminance_value_present_flag) io.u("ccv_min_luminance_value", s.ccv_min_luminance_value, 32);
  if (s.ccv_max_luminance_value_present_flag) io.u("ccv_max_luminance_value", s.ccv_max_luminance_value, 32);
  if (s.ccv_avg_luminance_value_present_flag) io.u("ccv_avg_luminance_value", s.ccv_avg_luminance_value, 32);
}
static void body_atc(IO& io, SeiAtc& s) { io.u("preferred_transfer_characteristics", s.preferred_transfer_characteristics, 8); }
static void body_ave(IO& io, SeiAve& s) {
  io.u("ambient_illuminance", s.ambient_illuminance, 32);
  io.u("ambient_light_x", s.ambient_light_x, 16);
  io.u("ambient_light_y", s.ambient_light_y, 16);
}
static void body_unk(IO& io, SeiUnk& s, size_t n) {
  size_t k = io.gen() ? n : s.payload.size();
  for (size_t i = 0; i < k && !io.over(); i++) io.uv("payload", s.payload, i, 8);
  io.size("payload", s.payload);
}

const uint32_t kSeiTypes[10] = {4, 5, 137, 141, 142, 144, 147, 148, 149, 165};

template <class T, class F> static bool sei_flat(IO& io, const char* n, H265SeiPayloadParser::H265SeiPayloadState* p, F f) {
  T* t = dynamic_cast<T*>(p);
  if (!t) return false;
  io.emit(std::string("kind ") + n, 1);
  f(*t);
  return true;
}

// reference decoding of the first message of the payload
static void dec_sei(IO& io, Sei& s) {
  auto ffcode = [&](const char* nm) {
    uint64_t v = 0, x;
    do {
      uint32_t b = 0;
      io.nodump().u(nm, b, 8);
      v += x = b;
    } while (x == 255);
    return v;
  };
  uint64_t type = ffcode("payload_type"), size = ffcode("payload_size");
  s.payload_type = static_cast<SeiType>((uint32_t)type);
  uint64_t declared = size;
  size_t at = io.w.n / 8;
  bool rest = size >= io.dec->size() - at;   // nothing after the payload
  if (size > io.dec->size() - at) {
    bool open = type == 4 || type == 5 || std::find(kSeiTypes, kSeiTypes + 10, (uint32_t)type) == kSeiTypes + 10;
    if (open) io.stop(IO::D_END, "payload");
    // what the payload must contain may still be there
    size = io.dec->size() - at;
    io.soft("payload longer than the data");
  }
  if (size == 0) io.stop(IO::D_UNKNOWN, "empty payload");
  s.payload_size = (uint32_t)declared;
  Bytes body(io.dec->begin() + (long)at, io.dec->begin() + (long)(at + size));
  IO b(*io.r);
  b.dec = &body;
  b.budget = io.budget;
  b.prefix = io.prefix;
  size_t n = body.size();
  try {
    switch (type) {
      case 4: { auto p = std::make_unique<SeiT35>(); body_t35(b, *p, n); s.payload_state = std::move(p); break; }
      case 5: { auto p = std::make_unique<SeiUnreg>(); if (n < 16) b.stop(IO::D_END, "uuid"); body_unreg(b, *p, n); s.payload_state = std::move(p); break; }
      case 137: { auto p = std::make_unique<SeiMdcv>(); body_mdcv(b, *p); s.payload_state = std::move(p); break; }
      case 141: { auto p = std::make_unique<SeiKnee>(); body_knee(b, *p); s.payload_state = std::move(p); break; }
      case 142: { auto p = std::make_unique<SeiRemap>(); body_remap(b, *p); s.payload_state = std::move(p); break; }
      case 144: { auto p = std::make_unique<SeiCll>(); body_cll(b, *p); s.payload_state = std::move(p); break; }
      case 147: { auto p = std::make_unique<SeiAtc>(); body_atc(b, *p); s.payload_state = std::move(p); break; }
      case 148: { auto p = std::make_unique<SeiAve>(); body_ave(b, *p); s.payload_state = std::move(p); break; }
      case 149: { auto p = std::make_unique<SeiCcv>(); body_ccv(b, *p); s.payload_state = std::move(p); break; }
      case 165: { auto p = std::make_unique<SeiAlpha>(); body_alpha(b, *p); s.payload_state = std::move(p); break; }
      default: { auto p = std::make_unique<SeiUnk>(); body_unk(b, *p, n); s.payload_state = std::move(p); break; }
    }
  } catch (const StopGen&) {
    for (auto e : b.tr) { e.pos += io.w.n; io.tr.push_back(e); }
    // running into the next message is not judged
    if (b.verdict == IO::D_END && !rest) io.stop(IO::D_UNKNOWN, "payload too small");
    io.stop(b.verdict, b.why);
  }
  if (b.verdict == IO::D_SOFT) io.soft(b.why);
  // nothing but the bit-equal-to-one and zeros may follow
  size_t left = n * 8 - b.w.n;
  if (left) {
    BitR t(body, b.w.n);
    bool ok = left < 8 && t.bit() == 1;
    while (ok && t.left()) ok = t.bit() == 0;
    if (!ok) io.soft("payload extension");
  }
  for (auto e : b.tr) { e.pos += io.w.n; io.tr.push_back(e); }
  io.w.append(body);
}

void syn_sei(IO& io, Sei& s) {
  if (!io.gen()) {
    io.emit("payload_type", (int64_t)(uint32_t)s.payload_type);
    io.emit("payload_size", s.payload_size);
    auto* p = s.payload_state.get();
    io.emit("payload_state?", p != nullptr);
    if (!p) return;
    bool ok = sei_flat<SeiT35>(io, "t35", p, [&](SeiT35& x) { body_t35(io, x, 0); }) ||
              sei_flat<SeiUnreg>(io, "unreg", p, [&](SeiUnreg& x) { body_unreg(io, x, 0); }) ||
              sei_flat<SeiAlpha>(io, "alpha", p, [&](SeiAlpha& x) { body_alpha(io, x); }) ||
              sei_flat<SeiMdcv>(io, "mdcv", p, [&](SeiMdcv& x) { body_mdcv(io, x); }) ||
              sei_flat<SeiCll>(io, "cll", p, [&](SeiCll& x) { body_cll(io, x); }) ||
              sei_flat<SeiKnee>(io, "knee", p, [&](SeiKnee& x) { body_knee(io, x); }) ||
              sei_flat<SeiRemap>(io, "remap", p, [&](SeiRemap& x) { body_remap(io, x); }) ||
              sei_flat<SeiCcv>(io, "ccv", p, [&](SeiCcv& x) { body_ccv(io, x); }) ||
              sei_flat<SeiAtc>(io, "atc", p, [&](SeiAtc& x) { body_atc(io, x); }) ||
              sei_flat<SeiAve>(io, "ave", p, [&](SeiAve& x) { body_ave(io, x); }) ||
              sei_flat<SeiUnk>(io, "unknown", p, [&](SeiUnk& x) { body_unk(io, x, 0); });
    if (!ok) io.emit("kind ?", 0);
    return;
  }
  if (io.dec) { dec_sei(io, s); return; }
  uint32_t type;
  auto it = io.pin.find("payload_type");
  if (it != io.pin.end()) type = (uint32_t)it->second;
  else if (io.r->chance(0.75)) type = kSeiTypes[io.r->below(10)];
  else if (io.r->chance(0.8)) type = (uint32_t)io.r->below(256);
  else if (io.r->chance(0.8)) type = (uint32_t)io.r->below(2000);
  else type = (uint32_t)io.r->logbelow(1u << 18);
  // the payload is written separately to know its size
  IO b(*io.r);
  b.wild = io.wild;
  b.hostile = io.hostile;
  b.budget = io.budget;
  b.prefix = io.prefix;
  b.pin = io.pin;
  long base = 2;
  if (io.force_idx >= base) { b.force_idx = io.force_idx - base; b.force_val = io.force_val; b.force_stop = false; }
  size_t n = io.r->chance(0.1) ? 250 + io.r->below(300) : io.r->below(24);
  if (io.pin.count("sei bytes")) n = (size_t)io.pin["sei bytes"];
  auto pt = static_cast<SeiType>(type);
  switch (type) {
    case 4: { auto p = std::make_unique<SeiT35>(); if (n < 1) n = 1; body_t35(b, *p, n); s.payload_state = std::move(p); break; }
    case 5: { auto p = std::make_unique<SeiUnreg>(); if (n < 16) n = 16; body_unreg(b, *p, n); s.payload_state = std::move(p); break; }
    case 137: { auto p = std::make_unique<SeiMdcv>(); body_mdcv(b, *p); s.payload_state = std::move(p); break; }
    case 141: { auto p = std::make_unique<SeiKnee>(); body_knee(b, *p); s.payload_state = std::move(p); break; }
    case 142: { auto p = std::make_unique<SeiRemap>(); body_remap(b, *p); s.payload_state = std::move(p); break; }
    case 144: { auto p = std::make_unique<SeiCll>(); body_cll(b, *p); s.payload_state = std::move(p); break; }
    case 147: { auto p = std::make_unique<SeiAtc>(); body_atc(b, *p); s.payload_state = std::move(p); break; }
    case 148: { auto p = std::make_unique<SeiAve>(); body_ave(b, *p); s.payload_state = std::move(p); break; }
    case 149: { auto p = std::make_unique<SeiCcv>(); body_ccv(b, *p); s.payload_state = std::move(p); break; }
    case 165: { auto p = std::make_unique<SeiAlpha>(); body_alpha(b, *p); s.payload_state = std::move(p); break; }
    default: { auto p = std::make_unique<SeiUnk>(); if (n < 1) n = 1; body_unk(b, *p, n); s.payload_state = std::move(p); break; }
  }
  size_t last_end = b.w.n;
  if (b.w.n % 8) { b.w.bit(1); b.w.align0(); }
  s.payload_type = pt;
  uint32_t size = (uint32_t)(b.w.n / 8);
  if (io.force_idx < 0 && io.hostile > 0 && io.r->chance(io.hostile)) size = (uint32_t)io.r->logbelow(5000);
  s.payload_size = size;
  auto ffcode = [&](const char* nm, uint32_t v) {
    size_t pos = io.w.n;
    uint32_t x = v;
    while (x >= 255) { io.w.put(255, 8); x -= 255; }
    io.w.put(x, 8);
    Elem e;
    e.name = nm; e.path = io.prefix + nm; e.val = v; e.pos = pos; e.nbits = (int)(io.w.n - pos); e.kind = 'u'; e.lo = 0; e.hi = 0xFFFFFFFFll; e.enforced = false; e.nodump = false;
    io.tr.push_back(e);
  };
  ffcode("payload_type", type);
  ffcode("payload_size", size);
  size_t off = io.w.n;
  for (auto e : b.tr) { e.pos += off; io.tr.push_back(e); }
  io.forced = io.forced || b.forced;
  io.w.append(b.w.b);
  (void)last_end;
  io.w.trailing();
}

void syn_aud(IO& io, Aud& s) {
  io.u("pic_type", s.pic_type, 3);
  if (io.gen()) io.trailing();
}

}  // namespace vh
