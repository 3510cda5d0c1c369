// profile_tier_level, HRD, VUI, st_ref_pic_set, scaling_list_data, VPS
#include <algorithm>
#include <cstring>

#include "syn.h"

namespace vh {

// ---- profile naming: rows of the standard's tables A.2, A.3, A.4 (and the library's documented additions).
// pattern: max_14bit max_12bit max_10bit max_8bit 422 420 mono intra one_picture lower_bit_rate; '.' = any
struct Row { uint32_t idc; const char* pat; ProfileType t; };
static const Row kRows[] = {
    {4, ".111111001", MONOCHROME},        {4, ".110111001", MONOCHROME_10},     {4, ".100111001", MONOCHROME_12},
    {4, ".000111001", MONOCHROME_16},     {4, ".100110001", MAIN_12},           {4, ".110100001", MAIN_422_10},
    {4, ".100100001", MAIN_422_12},       {4, ".111000001", MAIN_444},          {4, ".110000001", MAIN_444_10},
    {4, ".100000001", MAIN_444_12},       {4, ".11111010.", MAIN_INTRA},        {4, ".11011010.", MAIN_10_INTRA},
    {4, ".10011010.", MAIN_12_INTRA},     {4, ".11010010.", MAIN_422_10_INTRA}, {4, ".10010010.", MAIN_422_12_INTRA},
    {4, ".11100010.", MAIN_444_INTRA},    {4, ".11000010.", MAIN_444_10_INTRA}, {4, ".10000010.", MAIN_444_12_INTRA},
    {4, ".00000010.", MAIN_444_16_INTRA}, {4, ".11100011.", MAIN_444_STILL_PICTURE},
    {4, ".00000011.", MAIN_444_16_STILL_PICTURE},
    {4, ".11111111.", MONOCHROME_STILL_PICTURE}, {4, ".11011111.", MONOCHROME_10_STILL_PICTURE},
    {4, ".11111011.", MAIN_STILL_PICTURE},       {4, ".11011011.", MAIN_10_STILL_PICTURE},
    {4, ".11000011.", MAIN_444_10_STILL_PICTURE},
    {5, "1111000001", HIGH_THROUGHPUT_444},    {5, "1110000001", HIGH_THROUGHPUT_444_10},
    {5, "1000000001", HIGH_THROUGHPUT_444_14}, {5, "000000010.", HIGH_THROUGHPUT_444_16_INTRA},
    {7, ".111110001", SCALABLE_MAIN},          {7, ".110110001", SCALABLE_MAIN_10},
    {9, "1111110001", SCREEN_EXTENDED_MAIN},   {9, "1110110001", SCREEN_EXTENDED_MAIN_10},
    {9, "1111000001", SCREEN_EXTENDED_MAIN_444}, {9, "1110000001", SCREEN_EXTENDED_MAIN_444_10},
    {11, "1111000001", SCREEN_EXTENDED_HIGH_THROUGHPUT_444},
    {11, "1110000001", SCREEN_EXTENDED_HIGH_THROUGHPUT_444_10},
    {11, "1000000001", SCREEN_EXTENDED_HIGH_THROUGHPUT_444_14},
};
static const size_t kNumRows = sizeof kRows / sizeof kRows[0];

ProfileType ref_profile(const PInfo& p) {
  if (p.profile_space != 0) return UNSPECIFIED;
  uint32_t v[10] = {p.max_14bit_constraint_flag,      p.max_12bit_constraint_flag,     p.max_10bit_constraint_flag,
                    p.max_8bit_constraint_flag,       p.max_422chroma_constraint_flag, p.max_420chroma_constraint_flag,
                    p.max_monochrome_constraint_flag, p.intra_constraint_flag,         p.one_picture_only_constraint_flag,
                    p.lower_bit_rate_constraint_flag};
  for (const Row& r : kRows) {
    if (r.idc != p.profile_idc) continue;
    bool ok = true;
    for (int i = 0; i < 10; i++)
      if (r.pat[i] != '.' && (uint32_t)(r.pat[i] - '0') != v[i]) ok = false;
    if (ok) return r.t;
  }
  switch (p.profile_idc) {
    case 1: return MAIN;
    case 2: return p.one_picture_only_constraint_flag ? MAIN_10_STILL_PICTURE : MAIN_10;
    case 3: return MAIN_STILL_PICTURE;
    case 4: return FREXT;
    case 5: return HIGH_THROUGHPUT;
    case 6: return MULTIVIEW_MAIN;
    case 7: return SCALABLE;
    case 8: return _3D_MAIN;
    case 9: return SCREEN_EXTENDED;
    case 10: return MULTILAYER;
    case 11: return SCREEN_EXTENDED_HIGH_THROUGHPUT;
    case 12: return MULTIVIEW_EXTENDED;
    case 13: return MULTIVIEW_EXTENDED_10;
    default: return UNSPECIFIED;
  }
}

// The profile's name, lower case, letters and digits only.
const char* ref_profile_name(ProfileType t) {
  static const struct { ProfileType t; const char* n; } k[] = {
      {UNSPECIFIED, "unspecified"},
      {MAIN, "main"},
      {MAIN_10, "main10"},
      {MAIN_STILL_PICTURE, "mainstillpicture"},
      {FREXT, "frext"},
      {HIGH_THROUGHPUT, "highthroughput"},
      {MULTIVIEW_MAIN, "multiviewmain"},
      {SCALABLE, "scalable"},
      {_3D_MAIN, "3dmain"},
      {SCREEN_EXTENDED, "screenextended"},
      {MULTILAYER, "multilayer"},
      {SCREEN_EXTENDED_HIGH_THROUGHPUT, "screenextendedhighthroughput"},
      {MULTIVIEW_EXTENDED, "multiviewextended"},
      {MULTIVIEW_EXTENDED_10, "multiviewextended10"},
      {MAIN_10_STILL_PICTURE, "main10stillpicture"},
      {MONOCHROME, "monochrome"},
      {MONOCHROME_10, "monochrome10"},
      {MONOCHROME_12, "monochrome12"},
      {MONOCHROME_16, "monochrome16"},
      {MAIN_12, "main12"},
      {MAIN_422_10, "main42210"},
      {MAIN_422_12, "main42212"},
      {MAIN_444, "main444"},
      {MAIN_444_10, "main44410"},
      {MAIN_444_12, "main44412"},
      {MAIN_INTRA, "mainintra"},
      {MAIN_10_INTRA, "main10intra"},
      {MAIN_12_INTRA, "main12intra"},
      {MAIN_422_10_INTRA, "main42210intra"},
      {MAIN_422_12_INTRA, "main42212intra"},
      {MAIN_444_INTRA, "main444intra"},
      {MAIN_444_10_INTRA, "main44410intra"},
      {MAIN_444_12_INTRA, "main44412intra"},
      {MAIN_444_16_INTRA, "main44416intra"},
      {MAIN_444_STILL_PICTURE, "main444stillpicture"},
      {MAIN_444_16_STILL_PICTURE, "main44416stillpicture"},
      {HIGH_THROUGHPUT_444, "highthroughput444"},
      {HIGH_THROUGHPUT_444_10, "highthroughput44410"},
      {HIGH_THROUGHPUT_444_14, "highthroughput44414"},
      {HIGH_THROUGHPUT_444_16_INTRA, "highthroughput44416intra"},
      {SCALABLE_MAIN, "scalablemain"},
      {SCALABLE_MAIN_10, "scalablemain10"},
      {SCREEN_EXTENDED_MAIN, "screenextendedmain"},
      {SCREEN_EXTENDED_MAIN_10, "screenextendedmain10"},
      {SCREEN_EXTENDED_MAIN_444, "screenextendedmain444"},
      {SCREEN_EXTENDED_MAIN_444_10, "screenextendedmain44410"},
      {SCREEN_EXTENDED_HIGH_THROUGHPUT_444, "screenextendedhighthroughput444"},
      {SCREEN_EXTENDED_HIGH_THROUGHPUT_444_10, "screenextendedhighthroughput44410"},
      {SCREEN_EXTENDED_HIGH_THROUGHPUT_444_14, "screenextendedhighthroughput44414"},
      {MONOCHROME_STILL_PICTURE, "monochromestillpicture"},
      {MONOCHROME_10_STILL_PICTURE, "monochrome10stillpicture"},
      {MAIN_444_10_STILL_PICTURE, "main44410stillpicture"},
  };
  for (auto& x : k) if (x.t == t) return x.n;
  return "unspecified";
}
// Whether |shown| is a name of the profile: case, separators, a bit depth of 8 and remarks in brackets are free.
bool is_profile_name(const std::string& shown, ProfileType t) {
  std::string a, low;
  for (char ch : shown) low += (char)tolower((unsigned char)ch);
  for (const char* drop : {"(annex f)", "(8-bit)", "8-bit", "-bit", "bit"})
    for (size_t i; (i = low.find(drop)) != std::string::npos;) low.erase(i, strlen(drop));
  for (char ch : low) if (isalnum((unsigned char)ch)) a += ch;
  return a == ref_profile_name(t);
}

void syn_pinfo(IO& io, PInfo& s) {
  io.u("profile_space", s.profile_space, 2, 0, 3, 0);
  io.flag("tier_flag", s.tier_flag);
  io.u("profile_idc", s.profile_idc, 5, 0, 31, 13);
  // compatibility flags: mostly those a stream would set, sometimes a single odd one, sometimes random
  int style = io.gen() ? (int)io.r->below(4) : 0;
  uint32_t odd = io.gen() ? (uint32_t)io.r->below(32) : 0;
  for (uint32_t j = 0; j < 32; j++) {
    double p = style == 0 ? (j == s.profile_idc ? 1.0 : 0.0) : style == 1 ? (j == odd ? 1.0 : 0.0) : style == 2 ? 0.5 : 0.05;
    io.flagv("profile_compatibility_flag", s.profile_compatibility_flag, j, p);
  }
  auto any = [&](std::initializer_list<uint32_t> l) {
    for (uint32_t k : l)
      if (s.profile_idc == k || s.profile_compatibility_flag[k] == 1) return true;
    return false;
  };
  io.flag("progressive_source_flag", s.progressive_source_flag);
  io.flag("interlaced_source_flag", s.interlaced_source_flag);
  io.flag("non_packed_constraint_flag", s.non_packed_constraint_flag);
  io.flag("frame_only_constraint_flag", s.frame_only_constraint_flag);
  if (any({4, 5, 6, 7, 8, 9, 10, 11})) {
    bool has14 = any({5, 9, 10, 11});
    // half of the time start from a row of the tables (perhaps with one bit flipped)
    double p[10];
    for (double& x : p) x = 0.5;
    if (io.gen() && io.r->chance(0.7)) {
      std::vector<const Row*> m;
      for (const Row& r : kRows)
        if (r.idc == s.profile_idc) m.push_back(&r);
      const Row* r = m.empty() || io.r->chance(0.1) ? &kRows[io.r->below(kNumRows)] : m[io.r->below(m.size())];
      for (int i = 0; i < 10; i++)
        if (r->pat[i] != '.') p[i] = r->pat[i] - '0';
      if (io.r->chance(0.3)) { size_t k = io.r->below(10); p[k] = 1 - p[k]; }
    }
    io.flag("max_12bit_constraint_flag", s.max_12bit_constraint_flag, p[1]);
    io.flag("max_10bit_constraint_flag", s.max_10bit_constraint_flag, p[2]);
    io.flag("max_8bit_constraint_flag", s.max_8bit_constraint_flag, p[3]);
    io.flag("max_422chroma_constraint_flag", s.max_422chroma_constraint_flag, p[4]);
    io.flag("max_420chroma_constraint_flag", s.max_420chroma_constraint_flag, p[5]);
    io.flag("max_monochrome_constraint_flag", s.max_monochrome_constraint_flag, p[6]);
    io.flag("intra_constraint_flag", s.intra_constraint_flag, p[7]);
    io.flag("one_picture_only_constraint_flag", s.one_picture_only_constraint_flag, p[8]);
    io.flag("lower_bit_rate_constraint_flag", s.lower_bit_rate_constraint_flag, p[9]);
    if (has14) {
      io.flag("max_14bit_constraint_flag", s.max_14bit_constraint_flag, p[0]);
      io.u("reserved_zero_33bits", s.reserved_zero_33bits, 33);
    } else {
      io.u("reserved_zero_34bits", s.reserved_zero_34bits, 34);
    }
  } else if (any({2})) {
    io.u("reserved_zero_7bits", s.reserved_zero_7bits, 7);
    io.flag("one_picture_only_constraint_flag", s.one_picture_only_constraint_flag);
    io.u("reserved_zero_35bits", s.reserved_zero_35bits, 35);
  } else {
    io.u("reserved_zero_43bits", s.reserved_zero_43bits, 43);
  }
  if (any({1, 2, 3, 4, 5, 9, 11})) io.flag("inbld_flag", s.inbld_flag);
  else io.flag("reserved_zero_bit", s.reserved_zero_bit);
  // everything not coded reads as zero
  if (!io.gen()) {
    io.derived("abs.max_12bit", s.max_12bit_constraint_flag, 0);
    io.derived("abs.max_14bit", s.max_14bit_constraint_flag, 0);
    io.derived("abs.intra", s.intra_constraint_flag, 0);
    io.derived("abs.one_picture", s.one_picture_only_constraint_flag, 0);
    io.derived("abs.lower", s.lower_bit_rate_constraint_flag, 0);
    io.derived("abs.inbld", s.inbld_flag, 0);
    io.derived("abs.rzb", s.reserved_zero_bit, 0);
    uint64_t x = s.reserved_zero_33bits ^ s.reserved_zero_34bits ^ s.reserved_zero_35bits ^ s.reserved_zero_43bits ^ s.reserved_zero_7bits;
    io.derived("abs.reserved", x, 0);
  }
  if (io.gen()) {
    s.profile_type = ref_profile(s);
  } else {
    io.emit("profile_type", (int)s.profile_type);
    io.emit("GetProfileType() follows the table", io.expected || s.GetProfileType() == ref_profile(s));
  }
}

void syn_ptl(IO& io, Ptl& s, bool present, uint32_t msl) {
  if (io.gen()) { s.profilePresentFlag = present; s.maxNumSubLayersMinus1 = msl; }
  else { io.emit("profilePresentFlag", s.profilePresentFlag); io.emit("maxNumSubLayersMinus1", s.maxNumSubLayersMinus1); }
  if (io.sub("general", s.general, present, [] { return std::make_unique<PInfo>(); })) {
    IO::Scope sc(io, "general");
    syn_pinfo(io, *s.general);
  }
  io.u("general_level_idc", s.general_level_idc, 8);
  for (uint32_t i = 0; i < msl && !io.over(); i++) {
    io.flagv("sub_layer_profile_present_flag", s.sub_layer_profile_present_flag, i);
    io.flagv("sub_layer_level_present_flag", s.sub_layer_level_present_flag, i);
  }
  if (msl > 0)
    for (uint32_t i = msl; i < 8; i++) io.uv("reserved_zero_2bits", s.reserved_zero_2bits, i - msl, 2, 0, 3, 0);
  size_t np = 0, nl = 0;
  for (uint32_t i = 0; i < msl && !io.over(); i++) {
    if (i < s.sub_layer_profile_present_flag.size() && s.sub_layer_profile_present_flag[i]) {
      if (io.at("sub_layer", s.sub_layer, np)) {
        auto& p = s.sub_layer[np];
        if (io.sub("sub_layer", p, true, [] { return std::make_unique<PInfo>(); })) {
          IO::Scope sc(io, "sub_layer[" + std::to_string(np) + "]");
          syn_pinfo(io, *p);
        }
      }
      np++;
    }
    if (i < s.sub_layer_level_present_flag.size() && s.sub_layer_level_present_flag[i])
      io.uv("sub_layer_level_idc", s.sub_layer_level_idc, nl++, 8);
  }
  io.size("sub_layer_profile_present_flag", s.sub_layer_profile_present_flag);
  io.size("sub_layer_level_present_flag", s.sub_layer_level_present_flag);
  io.size("reserved_zero_2bits", s.reserved_zero_2bits);
  io.size("sub_layer", s.sub_layer);
  io.size("sub_layer_level_idc", s.sub_layer_level_idc);
}

void syn_sub_hrd(IO& io, SubHrd& s, uint32_t id, uint32_t cnt, uint32_t subpic) {
  io.derived("subLayerId", s.subLayerId, id);
  io.derived("CpbCnt", s.CpbCnt, cnt);
  io.derived("sub_pic_hrd_params_present_flag", s.sub_pic_hrd_params_present_flag, subpic);
  for (uint32_t i = 0; i < cnt && !io.over(); i++) {
    io.uev("bit_rate_value_minus1", s.bit_rate_value_minus1, i, 0, 0xFFFFFFFEll);
    io.uev("cpb_size_value_minus1", s.cpb_size_value_minus1, i, 0, 0xFFFFFFFEll);
    if (subpic) {
      io.uev("cpb_size_du_value_minus1", s.cpb_size_du_value_minus1, i, 0, 0xFFFFFFFEll);
      io.uev("bit_rate_du_value_minus1", s.bit_rate_du_value_minus1, i, 0, 0xFFFFFFFEll);
    } else if (io.gen()) {
      s.cpb_size_du_value_minus1.push_back(0);
      s.bit_rate_du_value_minus1.push_back(0);
    }
    io.flagv("cbr_flag", s.cbr_flag, i);
  }
  io.size("bit_rate_value_minus1", s.bit_rate_value_minus1);
  io.size("cpb_size_value_minus1", s.cpb_size_value_minus1);
  io.size("cbr_flag", s.cbr_flag);
  if (subpic) {
    io.size("cpb_size_du_value_minus1", s.cpb_size_du_value_minus1);
    io.size("bit_rate_du_value_minus1", s.bit_rate_du_value_minus1);
  }
}

void syn_hrd(IO& io, Hrd& s, uint32_t common, uint32_t msl, const Hrd* prev) {
  io.derived("commonInfPresentFlag", s.commonInfPresentFlag, common);
  io.derived("maxNumSubLayersMinus1", s.maxNumSubLayersMinus1, msl);
  if (common) {
    io.flag("nal_hrd_parameters_present_flag", s.nal_hrd_parameters_present_flag);
    io.flag("vcl_hrd_parameters_present_flag", s.vcl_hrd_parameters_present_flag);
    if (s.nal_hrd_parameters_present_flag || s.vcl_hrd_parameters_present_flag) {
      io.flag("sub_pic_hrd_params_present_flag", s.sub_pic_hrd_params_present_flag);
      if (s.sub_pic_hrd_params_present_flag) {
        io.u("tick_divisor_minus2", s.tick_divisor_minus2, 8);
        io.u("du_cpb_removal_delay_increment_length_minus1", s.du_cpb_removal_delay_increment_length_minus1, 5);
        io.flag("sub_pic_cpb_params_in_pic_timing_sei_flag", s.sub_pic_cpb_params_in_pic_timing_sei_flag);
        io.u("dpb_output_delay_du_length_minus1", s.dpb_output_delay_du_length_minus1, 5);
      }
      io.u("bit_rate_scale", s.bit_rate_scale, 4);
      io.u("cpb_size_scale", s.cpb_size_scale, 4);
      if (s.sub_pic_hrd_params_present_flag) io.u("cpb_size_du_scale", s.cpb_size_du_scale, 4);
      io.u("initial_cpb_removal_delay_length_minus1", s.initial_cpb_removal_delay_length_minus1, 5);
      io.u("au_cpb_removal_delay_length_minus1", s.au_cpb_removal_delay_length_minus1, 5);
      io.u("dpb_output_delay_length_minus1", s.dpb_output_delay_length_minus1, 5);
    }
  } else if (prev != nullptr || !io.gen()) {
    // 7.4.3.1: without the common part the previous structure's common values apply
    static const Hrd none;
    const Hrd& q = prev ? *prev : none;
    io.derived("nal_hrd_parameters_present_flag inherited", s.nal_hrd_parameters_present_flag, q.nal_hrd_parameters_present_flag);
    io.derived("vcl_hrd_parameters_present_flag inherited", s.vcl_hrd_parameters_present_flag, q.vcl_hrd_parameters_present_flag);
    io.derived("sub_pic_hrd_params_present_flag inherited", s.sub_pic_hrd_params_present_flag, q.sub_pic_hrd_params_present_flag);
    io.derived("tick_divisor_minus2 inherited", s.tick_divisor_minus2, q.tick_divisor_minus2);
    io.derived("du_cpb_removal_delay_increment_length_minus1 inherited", s.du_cpb_removal_delay_increment_length_minus1, q.du_cpb_removal_delay_increment_length_minus1);
    io.derived("sub_pic_cpb_params_in_pic_timing_sei_flag inherited", s.sub_pic_cpb_params_in_pic_timing_sei_flag, q.sub_pic_cpb_params_in_pic_timing_sei_flag);
    io.derived("dpb_output_delay_du_length_minus1 inherited", s.dpb_output_delay_du_length_minus1, q.dpb_output_delay_du_length_minus1);
    io.derived("bit_rate_scale inherited", s.bit_rate_scale, q.bit_rate_scale);
    io.derived("cpb_size_scale inherited", s.cpb_size_scale, q.cpb_size_scale);
    io.derived("cpb_size_du_scale inherited", s.cpb_size_du_scale, q.cpb_size_du_scale);
    io.derived("initial_cpb_removal_delay_length_minus1 inherited", s.initial_cpb_removal_delay_length_minus1, q.initial_cpb_removal_delay_length_minus1);
    io.derived("au_cpb_removal_delay_length_minus1 inherited", s.au_cpb_removal_delay_length_minus1, q.au_cpb_removal_delay_length_minus1);
    io.derived("dpb_output_delay_length_minus1 inherited", s.dpb_output_delay_length_minus1, q.dpb_output_delay_length_minus1);
  }
  size_t k = 0;
  for (uint32_t i = 0; i <= msl && !io.over(); i++) {
    io.flagv("fixed_pic_rate_general_flag", s.fixed_pic_rate_general_flag, i);
    if (!io.gen() && s.fixed_pic_rate_general_flag.size() <= i) break;
    if (!s.fixed_pic_rate_general_flag[i]) {
      io.flagv("fixed_pic_rate_within_cvs_flag", s.fixed_pic_rate_within_cvs_flag, i);
    } else if (io.gen()) {
      s.fixed_pic_rate_within_cvs_flag.push_back(1);  // inferred (E.3.2)
    } else if (i < s.fixed_pic_rate_within_cvs_flag.size()) {
      io.emit(fmt("fixed_pic_rate_within_cvs_flag[%u] inferred", i), s.fixed_pic_rate_within_cvs_flag[i]);
    }
    if (!io.gen() && s.fixed_pic_rate_within_cvs_flag.size() <= i) { io.emit("fixed_pic_rate_within_cvs_flag missing", -1); break; }
    if (s.fixed_pic_rate_within_cvs_flag[i]) {
      io.uev("elemental_duration_in_tc_minus1", s.elemental_duration_in_tc_minus1, i, 0, 2047);
      if (io.gen()) s.low_delay_hrd_flag.push_back(0);
    } else {
      io.flagv("low_delay_hrd_flag", s.low_delay_hrd_flag, i);
      if (io.gen()) s.elemental_duration_in_tc_minus1.push_back(0);
    }
    if (!io.gen() && s.low_delay_hrd_flag.size() <= i) { io.emit("low_delay_hrd_flag missing", -1); break; }
    if (!s.low_delay_hrd_flag[i]) {
      io.uev("cpb_cnt_minus1", s.cpb_cnt_minus1, i, 0, 31, 3);
    } else if (io.gen()) {
      s.cpb_cnt_minus1.push_back(0);
    }
    if (!io.gen() && s.cpb_cnt_minus1.size() <= i) { io.emit("cpb_cnt_minus1 missing", -1); break; }
    uint32_t cnt = s.cpb_cnt_minus1[i] + 1;
    for (int which = 0; which < 2; which++) {
      if (!(which == 0 ? s.nal_hrd_parameters_present_flag : s.vcl_hrd_parameters_present_flag)) continue;
      if (io.at("sub_layer_hrd", s.sub_layer_hrd_parameters_vector, k)) {
        auto& p = s.sub_layer_hrd_parameters_vector[k];
        if (io.sub("sub_layer_hrd", p, true, [] { return std::make_unique<SubHrd>(); })) {
          IO::Scope sc(io, "sub_layer_hrd[" + std::to_string(k) + "]");
          syn_sub_hrd(io, *p, i, io.gen() ? cnt : p->CpbCnt, s.sub_pic_hrd_params_present_flag);
        }
      }
      k++;
    }
  }
  io.size("fixed_pic_rate_general_flag", s.fixed_pic_rate_general_flag);
  io.size("fixed_pic_rate_within_cvs_flag", s.fixed_pic_rate_within_cvs_flag);
  io.size("low_delay_hrd_flag", s.low_delay_hrd_flag);
  io.size("cpb_cnt_minus1", s.cpb_cnt_minus1);
  io.size("elemental_duration_in_tc_minus1", s.elemental_duration_in_tc_minus1);
  io.size("sub_layer_hrd_parameters_vector", s.sub_layer_hrd_parameters_vector);
}

void syn_vui(IO& io, Vui& s, uint32_t msl) {
  io.derived("sps_max_sub_layers_minus1", s.sps_max_sub_layers_minus1, msl);
  io.flag("aspect_ratio_info_present_flag", s.aspect_ratio_info_present_flag);
  if (s.aspect_ratio_info_present_flag) {
    if (io.gen() && io.r->chance(0.4) && !io.pin.count("aspect_ratio_idc")) {
      io.pin["aspect_ratio_idc"] = 255;
      io.u("aspect_ratio_idc", s.aspect_ratio_idc, 8);
      io.pin.erase("aspect_ratio_idc");
    } else {
      io.u("aspect_ratio_idc", s.aspect_ratio_idc, 8);
    }
    if (s.aspect_ratio_idc == 255) {
      io.u("sar_width", s.sar_width, 16);
      io.u("sar_height", s.sar_height, 16);
    }
  }
  io.flag("overscan_info_present_flag", s.overscan_info_present_flag);
  if (s.overscan_info_present_flag) io.flag("overscan_appropriate_flag", s.overscan_appropriate_flag);
  io.flag("video_signal_type_present_flag", s.video_signal_type_present_flag);
  if (s.video_signal_type_present_flag) {
    io.u("video_format", s.video_format, 3);
    io.flag("video_full_range_flag", s.video_full_range_flag);
    io.flag("colour_description_present_flag", s.colour_description_present_flag);
    if (s.colour_description_present_flag) {
      io.u("colour_primaries", s.colour_primaries, 8);
      io.u("transfer_characteristics", s.transfer_characteristics, 8);
      io.u("matrix_coeffs", s.matrix_coeffs, 8);
    }
  }
  io.flag("chroma_loc_info_present_flag", s.chroma_loc_info_present_flag);
  if (s.chroma_loc_info_present_flag) {
    io.E().ue("chroma_sample_loc_type_top_field", s.chroma_sample_loc_type_top_field, 0, 5);
    io.E().ue("chroma_sample_loc_type_bottom_field", s.chroma_sample_loc_type_bottom_field, 0, 5);
  }
  io.flag("neutral_chroma_indication_flag", s.neutral_chroma_indication_flag);
  io.flag("field_seq_flag", s.field_seq_flag);
  io.flag("frame_field_info_present_flag", s.frame_field_info_present_flag);
  io.flag("default_display_window_flag", s.default_display_window_flag);
  if (s.default_display_window_flag) {
    io.E().ue("def_disp_win_left_offset", s.def_disp_win_left_offset, 0, 16384);
    io.E().ue("def_disp_win_right_offset", s.def_disp_win_right_offset, 0, 16384);
    io.E().ue("def_disp_win_top_offset", s.def_disp_win_top_offset, 0, 16384);
    io.E().ue("def_disp_win_bottom_offset", s.def_disp_win_bottom_offset, 0, 16384);
  }
  io.flag("vui_timing_info_present_flag", s.vui_timing_info_present_flag);
  if (s.vui_timing_info_present_flag) {
    io.u("vui_num_units_in_tick", s.vui_num_units_in_tick, 32, 0, 0xFFFFFFFFll, io.gen() && io.r->chance(0.3) ? 0x7FFFFFFF : 3003);
    io.u("vui_time_scale", s.vui_time_scale, 32, 0, 0xFFFFFFFFll, io.gen() && io.r->chance(0.3) ? 0x7FFFFFFF : 90000);
    io.flag("vui_poc_proportional_to_timing_flag", s.vui_poc_proportional_to_timing_flag);
    if (s.vui_poc_proportional_to_timing_flag)
      io.ue("vui_num_ticks_poc_diff_one_minus1", s.vui_num_ticks_poc_diff_one_minus1, 0, 0xFFFFFFFEll);
    io.flag("vui_hrd_parameters_present_flag", s.vui_hrd_parameters_present_flag);
    if (io.sub("hrd_parameters", s.hrd_parameters, s.vui_hrd_parameters_present_flag, [] { return std::make_unique<Hrd>(); })) {
      IO::Scope sc(io, "hrd_parameters");
      syn_hrd(io, *s.hrd_parameters, 1, msl);
    }
  }
  io.flag("bitstream_restriction_flag", s.bitstream_restriction_flag);
  if (s.bitstream_restriction_flag) {
    io.flag("tiles_fixed_structure_flag", s.tiles_fixed_structure_flag);
    io.flag("motion_vectors_over_pic_boundaries_flag", s.motion_vectors_over_pic_boundaries_flag);
    io.flag("restricted_ref_pic_lists_flag", s.restricted_ref_pic_lists_flag);
    io.E().ue("min_spatial_segmentation_idc", s.min_spatial_segmentation_idc, 0, 4095);
    io.E().ue("max_bytes_per_pic_denom", s.max_bytes_per_pic_denom, 0, 16);
    io.E().ue("max_bits_per_min_cu_denom", s.max_bits_per_min_cu_denom, 0, 16);
    io.E().ue("log2_max_mv_length_horizontal", s.log2_max_mv_length_horizontal, 0, 16);
    io.E().ue("log2_max_mv_length_vertical", s.log2_max_mv_length_vertical, 0, 15);
  }
}

// Reference derivation (7-61)..(7-68), on plain lists of (delta, used).
static void ref_derive(StRps& s, const StRps& ref) {
  typedef std::vector<std::pair<long, uint32_t>> L;
  auto expand = [](const std::vector<uint32_t>& d, const std::vector<uint32_t>& u, int sign) {
    L l;
    long p = 0;
    for (size_t i = 0; i < d.size(); i++) { p += sign * ((long)d[i] + 1); l.push_back({p, u[i]}); }
    return l;
  };
  L neg = expand(ref.delta_poc_s0_minus1, ref.used_by_curr_pic_s0_flag, -1);
  L pos = expand(ref.delta_poc_s1_minus1, ref.used_by_curr_pic_s1_flag, +1);
  long dr = (s.delta_rps_sign ? -1L : 1L) * ((long)s.abs_delta_rps_minus1 + 1);
  // all candidates with their flag index; index n is deltaRps itself
  std::vector<std::pair<long, size_t>> cand;
  for (size_t j = 0; j < neg.size(); j++) cand.push_back({neg[j].first + dr, j});
  for (size_t j = 0; j < pos.size(); j++) cand.push_back({pos[j].first + dr, neg.size() + j});
  cand.push_back({dr, neg.size() + pos.size()});
  L n, p;
  for (auto& c : cand) {
    if (!s.use_delta_flag[c.second]) continue;
    if (c.first < 0) n.push_back({c.first, s.used_by_curr_pic_flag[c.second]});
    if (c.first > 0) p.push_back({c.first, s.used_by_curr_pic_flag[c.second]});
  }
  std::sort(n.begin(), n.end(), [](auto& a, auto& b) { return a.first > b.first; });
  std::sort(p.begin(), p.end(), [](auto& a, auto& b) { return a.first < b.first; });
  s.num_negative_pics = (uint32_t)n.size();
  s.num_positive_pics = (uint32_t)p.size();
  long last = 0;
  for (auto& x : n) { s.delta_poc_s0_minus1.push_back((uint32_t)(last - x.first - 1)); s.used_by_curr_pic_s0_flag.push_back(x.second); last = x.first; }
  last = 0;
  for (auto& x : p) { s.delta_poc_s1_minus1.push_back((uint32_t)(x.first - last - 1)); s.used_by_curr_pic_s1_flag.push_back(x.second); last = x.first; }
}

void syn_strps(IO& io, StRps& s, uint32_t idx, uint32_t num, const RpsVec& sets, uint32_t maxp) {
  io.derived("stRpsIdx", s.stRpsIdx, idx);
  io.derived("num_short_term_ref_pic_sets", s.num_short_term_ref_pic_sets, num);
  if (idx != 0) io.flag("inter_ref_pic_set_prediction_flag", s.inter_ref_pic_set_prediction_flag, 0.6);
  if (s.inter_ref_pic_set_prediction_flag) {
    if (idx == num) io.E().ue("delta_idx_minus1", s.delta_idx_minus1, 0, (int64_t)idx - 1);
    io.flag("delta_rps_sign", s.delta_rps_sign);
    io.E().ue("abs_delta_rps_minus1", s.abs_delta_rps_minus1, 0, 32767, io.gen() && io.r->chance(0.7) ? 6 : 32767);
    if (io.gen()) {
      size_t ri = (size_t)idx - 1 - s.delta_idx_minus1;
      if (ri >= sets.size() || !sets[ri]) { if (io.dec) io.stop(IO::D_UNKNOWN, "reference set"); io.truncated = true; throw StopGen(); }
      const StRps& ref = *sets[ri];
      uint32_t n = ref.num_negative_pics + ref.num_positive_pics;
      // the derived set may hold at most maxp pictures
      uint32_t room = maxp;
      long dr = (s.delta_rps_sign ? -1L : 1L) * ((long)s.abs_delta_rps_minus1 + 1);
      std::vector<long> d;
      long a = 0;
      for (uint32_t x : ref.delta_poc_s0_minus1) { a -= (long)x + 1; d.push_back(a); }
      a = 0;
      for (uint32_t x : ref.delta_poc_s1_minus1) { a += (long)x + 1; d.push_back(a); }
      d.push_back(0);
      if (d.size() != (size_t)n + 1) { if (io.dec) io.stop(IO::D_UNKNOWN, "reference set"); io.truncated = true; throw StopGen(); }  // out-of-range counts were forced
      for (uint32_t j = 0; j <= n; j++) {
        bool zero = d[j] + dr == 0;
        bool can = zero || room > 0;
        io.flagv("used_by_curr_pic_flag", s.used_by_curr_pic_flag, j, can ? 0.6 : 0.0);
        if (!s.used_by_curr_pic_flag[j]) io.flagv("use_delta_flag", s.use_delta_flag, j, can ? 0.6 : 0.0);
        else s.use_delta_flag.push_back(1);
        if (s.use_delta_flag[j] && !zero && room > 0) room--;
      }
      ref_derive(s, ref);
      if (io.dec && s.num_negative_pics + s.num_positive_pics > maxp) io.soft("more pictures than allowed");
    } else {
      for (size_t j = 0; j < s.used_by_curr_pic_flag.size() && !io.over(); j++) io.emit(fmt("used_by_curr_pic_flag[%zu]", j), s.used_by_curr_pic_flag[j]);
      for (size_t j = 0; j < s.use_delta_flag.size() && !io.over(); j++) io.emit(fmt("use_delta_flag[%zu]", j), s.use_delta_flag[j]);
    }
  } else if (io.gen()) {
    int64_t dsoft = io.r->chance(0.8) ? 4 : 32767;
    io.E().ue("num_negative_pics", s.num_negative_pics, 0, maxp, 4);
    io.E().ue("num_positive_pics", s.num_positive_pics, 0, (int64_t)maxp - std::min<int64_t>(maxp, s.num_negative_pics), 4);
    for (uint32_t i = 0; i < s.num_negative_pics && i < 64; i++) {
      io.E().uev("delta_poc_s0_minus1", s.delta_poc_s0_minus1, i, 0, 32767, dsoft);
      io.flagv("used_by_curr_pic_s0_flag", s.used_by_curr_pic_s0_flag, i);
    }
    for (uint32_t i = 0; i < s.num_positive_pics && i < 64; i++) {
      io.E().uev("delta_poc_s1_minus1", s.delta_poc_s1_minus1, i, 0, 32767, dsoft);
      io.flagv("used_by_curr_pic_s1_flag", s.used_by_curr_pic_s1_flag, i);
    }
  }
  if (!io.gen()) {
    io.emit("delta_idx_minus1", s.delta_idx_minus1);
    io.emit("num_negative_pics", s.num_negative_pics);
    io.emit("num_positive_pics", s.num_positive_pics);
    auto list = [&](const char* n, const std::vector<uint32_t>& v) {
      io.size(n, v);
      for (size_t i = 0; i < v.size() && !io.over(); i++) io.emit(fmt("%s[%zu]", n, i), v[i]);
    };
    list("delta_poc_s0_minus1", s.delta_poc_s0_minus1);
    list("used_by_curr_pic_s0_flag", s.used_by_curr_pic_s0_flag);
    list("delta_poc_s1_minus1", s.delta_poc_s1_minus1);
    list("used_by_curr_pic_s1_flag", s.used_by_curr_pic_s1_flag);
  }
}

void syn_sld(IO& io, Sld& s) {
  if (io.gen()) {
    s.scaling_list_pred_mode_flag.assign(4, std::vector<uint32_t>(6, 0));
    s.scaling_list_pred_matrix_id_delta.assign(4, std::vector<uint32_t>(6, 0));
    s.scaling_list_dc_coef_minus8.assign(4, std::vector<int32_t>(6, 0));
    s.ScalingList.assign(4, std::vector<std::vector<uint32_t>>(6));
  }
  bool ok = s.scaling_list_pred_mode_flag.size() >= 4 && s.scaling_list_pred_matrix_id_delta.size() >= 4 &&
            s.scaling_list_dc_coef_minus8.size() >= 2 && s.ScalingList.size() >= 4;
  if (!ok) { io.emit("scaling list shape", -1); return; }
  for (uint32_t z = 0; z < 4; z++) {
    ok = s.scaling_list_pred_mode_flag[z].size() >= 6 && s.scaling_list_pred_matrix_id_delta[z].size() >= 6 && s.ScalingList[z].size() >= 6;
    if (!ok) { io.emit("scaling list shape", -2); return; }
    for (uint32_t m = 0; m < 6; m += z == 3 ? 3 : 1) {
      IO::Scope sc(io, fmt("list[%u][%u]", z, m));
      io.flagv("scaling_list_pred_mode_flag", s.scaling_list_pred_mode_flag[z], m);
      if (!s.scaling_list_pred_mode_flag[z][m]) {
        io.uev("scaling_list_pred_matrix_id_delta", s.scaling_list_pred_matrix_id_delta[z], m, 0, z == 3 ? m / 3 : m);
      } else {
        int next = 8;
        int n = z == 0 ? 16 : 64;
        if (z > 1) {
          io.E().sev("scaling_list_dc_coef_minus8", s.scaling_list_dc_coef_minus8[z - 2], m, -7, 247);
          next = s.scaling_list_dc_coef_minus8[z - 2][m] + 8;
        }
        auto& l = s.ScalingList[z][m];
        if (io.gen()) {
          int64_t soft = io.r->chance(0.5) ? 6 : 128;
          for (int i = 0; i < n; i++) {
            int32_t d = 0;
            io.nodump().E().se("scaling_list_delta_coef", d, -128, 127, soft);
            next = (int)(((int64_t)next + d + 256) & 255);
            l.push_back((uint32_t)next);
          }
        }
      }
      if (!io.gen()) {
        io.size("ScalingList", s.ScalingList[z][m]);
        for (size_t i = 0; i < s.ScalingList[z][m].size() && !io.over(); i++) io.emit(fmt("coef[%zu]", i), s.ScalingList[z][m][i]);
      }
    }
    if (!io.gen()) {
      for (uint32_t m = 0; m < 6; m++)
        if (z == 3 && m % 3) io.emit(fmt("unused[%u].size", m), (int64_t)s.ScalingList[z][m].size());
    }
  }
}

void syn_vps(IO& io, Vps& s) {
  io.u("vps_video_parameter_set_id", s.vps_video_parameter_set_id, 4);
  io.flag("vps_base_layer_internal_flag", s.vps_base_layer_internal_flag);
  io.flag("vps_base_layer_available_flag", s.vps_base_layer_available_flag);
  io.u("vps_max_layers_minus1", s.vps_max_layers_minus1, 6, 0, 62);
  io.u("vps_max_sub_layers_minus1", s.vps_max_sub_layers_minus1, 3, 0, 6, 2);
  io.flag("vps_temporal_id_nesting_flag", s.vps_temporal_id_nesting_flag);
  io.u("vps_reserved_0xffff_16bits", s.vps_reserved_0xffff_16bits, 16, 0, 0xffff);
  uint32_t msl = s.vps_max_sub_layers_minus1;
  if (io.sub("profile_tier_level", s.profile_tier_level, true, [] { return std::make_unique<Ptl>(); })) {
    IO::Scope sc(io, "profile_tier_level");
    syn_ptl(io, *s.profile_tier_level, true, msl);
  }
  io.flag("vps_sub_layer_ordering_info_present_flag", s.vps_sub_layer_ordering_info_present_flag);
  uint32_t n = s.vps_sub_layer_ordering_info_present_flag ? msl + 1 : 1;
  for (uint32_t i = 0; i < n; i++) {
    io.uev("vps_max_dec_pic_buffering_minus1", s.vps_max_dec_pic_buffering_minus1, i, 0, 15);
    io.uev("vps_max_num_reorder_pics", s.vps_max_num_reorder_pics, i, 0, 15);
    io.uev("vps_max_latency_increase_plus1", s.vps_max_latency_increase_plus1, i, 0, 0xFFFFFFFEll);
  }
  io.size("vps_max_dec_pic_buffering_minus1", s.vps_max_dec_pic_buffering_minus1);
  io.size("vps_max_num_reorder_pics", s.vps_max_num_reorder_pics);
  io.size("vps_max_latency_increase_plus1", s.vps_max_latency_increase_plus1);
  io.E().u("vps_max_layer_id", s.vps_max_layer_id, 6, 0, 62, 5);
  // (a large number of layer sets is used rarely, because of its size)
  int64_t lsmax = io.gen() && !io.dec && (io.r->chance(0.97) || s.vps_max_layer_id > 8) ? 20 : 1023;
  if (io.gen() && io.force_idx == (long)io.tr.size()) lsmax = 1023;
  io.E().ue("vps_num_layer_sets_minus1", s.vps_num_layer_sets_minus1, 0, io.force_idx >= 0 ? 1023 : lsmax, 4);
  if (!io.tr.empty() && io.gen()) io.tr.back().hi = 1023;
  for (uint32_t i = 1; i <= s.vps_num_layer_sets_minus1 && !io.over() && i < 2000; i++) {
    if (!io.at("layer_id_included_flag", s.layer_id_included_flag, i - 1)) break;
    IO::Scope sc(io, fmt("set[%u]", i - 1));
    for (uint32_t j = 0; j <= s.vps_max_layer_id; j++) io.flagv("layer_id_included_flag", s.layer_id_included_flag[i - 1], j);
    io.size("layer_id_included_flag", s.layer_id_included_flag[i - 1]);
  }
  io.size("layer_id_included_flag", s.layer_id_included_flag);
  io.flag("vps_timing_info_present_flag", s.vps_timing_info_present_flag);
  if (s.vps_timing_info_present_flag) {
    io.u("vps_num_units_in_tick", s.vps_num_units_in_tick, 32, 0, 0xFFFFFFFFll, 0x7FFFFFFF);
    io.u("vps_time_scale", s.vps_time_scale, 32, 0, 0xFFFFFFFFll, 0x7FFFFFFF);
    io.flag("vps_poc_proportional_to_timing_flag", s.vps_poc_proportional_to_timing_flag);
    if (s.vps_poc_proportional_to_timing_flag)
      io.ue("vps_num_ticks_poc_diff_one_minus1", s.vps_num_ticks_poc_diff_one_minus1, 0, 0xFFFFFFFEll);
    io.E().ue("vps_num_hrd_parameters", s.vps_num_hrd_parameters, 0, (int64_t)s.vps_num_layer_sets_minus1 + 1, 2);
    std::unique_ptr<Hrd> prev;
    for (uint32_t i = 0; i < s.vps_num_hrd_parameters && !io.over() && i < 1100; i++) {
      io.uev("hrd_layer_set_idx", s.hrd_layer_set_idx, i, 0, s.vps_num_layer_sets_minus1);
      if (i > 0) io.flagv("cprms_present_flag", s.cprms_present_flag, i);
      else if (io.gen()) s.cprms_present_flag.push_back(1);  // inferred (7.4.3.1)
      else if (s.cprms_present_flag.size()) io.emit("cprms_present_flag[0] inferred", s.cprms_present_flag[0]);
      if (io.gen()) {
        IO::Scope sc(io, "hrd_parameters");
        auto h = std::make_unique<Hrd>();
        syn_hrd(io, *h, s.cprms_present_flag[i], msl, prev.get());
        prev = std::move(h);
      }
    }
    if (io.gen()) s.hrd_parameters = std::move(prev);
    else {
      io.emit("hrd_parameters?", s.hrd_parameters != nullptr);
      if (s.hrd_parameters) {
        IO::Scope sc(io, "hrd_parameters");
        syn_hrd(io, *s.hrd_parameters, s.hrd_parameters->commonInfPresentFlag, msl);
      }
    }
    io.size("hrd_layer_set_idx", s.hrd_layer_set_idx);
    io.size("cprms_present_flag", s.cprms_present_flag);
  }
  io.flag("vps_extension_flag", s.vps_extension_flag, 0.2);
  if (s.vps_extension_flag) {
    if (io.dec) {
      while (io.more()) io.flag("vps_extension_data_flag", s.vps_extension_data_flag);
    } else if (io.gen()) {
      int k = (int)io.r->below(40);
      for (int i = 0; i < k; i++) { s.vps_extension_data_flag = (uint32_t)io.r->below(2); io.fixed("vps_extension_data_flag", s.vps_extension_data_flag, 1); }
    } else {
      io.emit("vps_extension_data_flag", s.vps_extension_data_flag);
    }
  }
  if (io.gen()) io.trailing();
}

}  // namespace vh
