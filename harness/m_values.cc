// V01..V13: decoded values equal the encoded ones.  Oracle: the values the generator chose, taken through derivations
// written from the standard; the bits are written by the harness's own bit writer.
#include <math.h>
#include <string.h>

#include <algorithm>

#include "build.h"

namespace vh {

// Varies how inputs are drawn, so that each presence pattern and boundary is reached.
static void vary(Ctx& c, Opts& o) {
  static const double w[] = {0.0, 0.1, 0.3, 0.7};
  o.wild = w[c.r.below(4)];
  if (c.r.chance(0.1)) o.budget = 400000;
}
static void observe(Ctx& c, const Unit& u) {
  c.eval(mix(shape_hash(u.tr), hash_bytes(u.raw)));
  c.count("elements compared", u.tr.size());
  c.maximum("elements in one structure", u.tr.size());
  c.maximum("payload bytes", u.raw.size());
  if (u.nal.size() != u.raw.size()) c.count("units with emulation prevention");
}
static Bytes payload_of(const Unit& u) { return Bytes(u.raw.begin() + 2, u.raw.end()); }

// Checks a parameter-set unit through the direct parser (escaped payload) and through the unit parser.
template <class P, class D>
static void check_set(Ctx& c, const Unit& u, const char* name, P parse, D cmp) {
  c.note("unit", u.nal);
  std::string key, d;
  Bytes esc = escape(payload_of(u));
  {
    Exact e(esc);
    auto s = parse(e.p, e.n);
    if (!s) c.violation(std::string(name) + " refused", fmt("valid %s refused", name));
    else {
      d = cmp(*s, &key);
      if (!d.empty()) c.violation(std::string(name) + " " + key, d);
    }
  }
  Exact e(u.nal);
  PState st;
  auto n = H265NalUnitParser::ParseNalUnit(e.p, e.n, &st, opts_all());
  d = cmp_unit(u, n.get(), &key);
  if (!d.empty()) c.violation(std::string(name) + " as unit: " + key, d);
  observe(c, u);
  c.sample(fmt("%s: %zu elements, %s", name, u.tr.size(), hex(u.nal, 40).c_str()));
}

VH_MODE(V01, 16000, 600000, "one generated video parameter set, distinct by presence pattern and coded bytes") {
  Gen g(c.r);
  vary(c, g.o);
  if (c.r.chance(0.5)) g.o.pin["vps_timing_info_present_flag"] = 1;
  if (c.cur % 150 == 7) {   // hundreds of layer sets, most with decoder buffer parameters
    int64_t n = c.r.chance(0.3) ? 1023 : 100 + (int64_t)c.r.below(924);
    g.o.pin["vps_num_layer_sets_minus1"] = n;
    g.o.pin["vps_max_sub_layers_minus1"] = (int64_t)c.r.below(2);
    g.o.pin["vps_timing_info_present_flag"] = c.r.chance(0.8);
    g.o.pin["vps_num_hrd_parameters"] = c.r.chance(0.3) ? n + 1 : (int64_t)c.r.below((uint64_t)n + 2);
    g.o.pin["cpb_cnt_minus1"] = (int64_t)c.r.below(2);
    g.o.budget = 1u << 20;
    c.count("vps with hundreds of layer sets");
  }
  Unit u = g.make_vps();
  auto want = u.vps;
  c.count(fmt("vps with %u hrd structures", std::min(3u, want->vps_num_hrd_parameters)));
  if (want->vps_extension_flag) c.count("vps with extension data");
  check_set(c, u, "vps", [](const uint8_t* p, size_t n) { return H265VpsParser::ParseVps(p, n); },
            [&](const Vps& s, std::string* k) { return cmp_vps(*want, s, k); });
}

VH_MODE(V02, 60000, 3000000, "one generated profile/tier/level structure at a random bit position") {
  IO io(c.r);
  static const double w[] = {0.0, 0.1, 0.5};
  io.wild = w[c.r.below(3)];
  uint32_t msl = (uint32_t)c.r.below(7);
  bool present = c.r.chance(0.85);
  Ptl want;
  syn_ptl(io, want, present, msl);
  // placed after some bits and followed by others
  BitW b;
  size_t lead = c.r.below(17);
  for (size_t i = 0; i < lead; i++) b.bit((int)c.r.below(2));
  { BitR rd(io.w.b); for (size_t i = 0; i < io.w.n; i++) b.bit(rd.bit()); }
  size_t end = b.n;
  for (size_t i = c.r.below(30); i; i--) b.bit((int)c.r.below(2));
  c.note(fmt("lead %zu present %d msl %u bits %zu %s", lead, present, msl, end, hex(b.b).c_str()));
  Exact e(b.b);
  BitBuffer bb(e.p, e.n);
  if (lead) bb.ConsumeBits(lead);
  auto got = H265ProfileTierLevelParser::ParseProfileTierLevel(&bb, present, msl);
  std::string key, d;
  c.eval(mix(shape_hash(io.tr), hash_bytes(b.b)));
  c.count("elements compared", io.tr.size());
  if (!got) { c.violation("ptl refused", "valid profile_tier_level refused"); return; }
  d = compare(want, *got, [&](IO& x, Ptl& s) { syn_ptl(x, s, present, msl); }, &key);
  if (!d.empty()) c.violation("ptl " + key, d);
  size_t by, bi;
  bb.GetCurrentOffset(&by, &bi);
  if (by * 8 + bi != end) c.violation("ptl position", fmt("position after structure is bit %zu, expected %zu", by * 8 + bi, end));
  if (present) {
    c.count(fmt("profile name %u", (unsigned)want.general->profile_type));
    // the name shown is the one of the profile
    std::string nm;
    profileTypeToString(got->general->profile_type, nm);
    if (!is_profile_name(nm, want.general->profile_type)) c.violation("ptl profile name", fmt("profile %u is called %s", (unsigned)want.general->profile_type, nm.c_str()));
  }
  // the first part alone, from bytes
  {
    IO i2(c.r);
    i2.wild = io.wild;
    PInfo w2;
    syn_pinfo(i2, w2);
    Bytes esc = escape(i2.w.b);
    Exact f(esc);
    auto g2 = H265ProfileInfoParser::ParseProfileInfo(f.p, f.n);
    if (!g2) c.violation("profile refused (bytes)", "valid profile information refused");
    else {
      d = compare(w2, *g2, [&](IO& x, PInfo& s) { syn_pinfo(x, s); }, &key);
      if (!d.empty()) c.violation("profile bytes " + key, d);
    }
  }
  // from bytes
  if (lead == 0) {
    Bytes esc = escape(b.b);
    Exact f(esc);
    auto g2 = H265ProfileTierLevelParser::ParseProfileTierLevel(f.p, f.n, present, msl);
    if (!g2) c.violation("ptl refused (bytes)", "valid profile_tier_level refused");
    else {
      d = compare(want, *g2, [&](IO& x, Ptl& s) { syn_ptl(x, s, present, msl); }, &key);
      if (!d.empty()) c.violation("ptl bytes " + key, d);
    }
  }
}

VH_MODE(V03, 12000, 500000, "one generated sequence parameter set, distinct by presence pattern and coded bytes") {
  Gen g(c.r);
  vary(c, g.o);
  Unit u = g.make_sps();
  auto want = u.sps;
  c.count(fmt("chroma_format_idc %u", want->chroma_format_idc));
  c.count(fmt("sps with %s scaling list", want->sps_scaling_list_data_present_flag ? "explicit" : "no"));
  check_set(c, u, "sps", [](const uint8_t* p, size_t n) { return H265SpsParser::ParseSps(p, n); },
            [&](const Sps& s, std::string* k) { return cmp_sps(*want, s, k); });
}

VH_MODE(V04, 30000, 1500000, "one generated display-information block") {
  IO io(c.r);
  static const double w[] = {0.0, 0.1, 0.5};
  io.wild = w[c.r.below(3)];
  uint32_t msl = (uint32_t)c.r.below(7);
  Vui want;
  if (c.r.chance(0.5)) { io.pin["vui_timing_info_present_flag"] = 1; io.pin["vui_hrd_parameters_present_flag"] = 1; }
  try { syn_vui(io, want, msl); } catch (const StopGen&) { c.count("over budget"); return; }
  size_t end = io.w.n;
  Bytes tail = c.r.bytes(1 + c.r.below(4));
  io.w.append(tail);
  c.note(fmt("msl %u bits %zu %s", msl, end, hex(io.w.b).c_str()));
  Exact e(io.w.b);
  BitBuffer bb(e.p, e.n);
  auto got = H265VuiParametersParser::ParseVuiParameters(&bb, msl);
  c.eval(mix(shape_hash(io.tr), hash_bytes(io.w.b)));
  c.count("elements compared", io.tr.size());
  if (!got) { c.violation("vui refused", "valid vui_parameters refused"); return; }
  std::string key, d = compare(want, *got, [&](IO& x, Vui& s) { syn_vui(x, s, msl); }, &key);
  if (!d.empty()) c.violation("vui " + key, d);
  size_t by, bi;
  bb.GetCurrentOffset(&by, &bi);
  if (by * 8 + bi != end) c.violation("vui position", fmt("position after structure is bit %zu, expected %zu", by * 8 + bi, end));
  if (want.hrd_parameters) c.count("with hrd");
  if (want.vui_timing_info_present_flag && want.vui_num_units_in_tick) {
    double f = (double)want.vui_time_scale / (double)want.vui_num_units_in_tick;
    float r = got->getFramerate();
    if (!(fabs(r - f) <= 1e-6 * f)) c.violation("vui framerate", fmt("frame rate %.9g expected %.9g", r, f));
    c.count("frame rates compared");
  }
  Bytes esc = escape(io.w.b);
  Exact f(esc);
  auto g2 = H265VuiParametersParser::ParseVuiParameters(f.p, f.n, msl);
  if (!g2) c.violation("vui refused (bytes)", "valid vui_parameters refused");
  else {
    d = compare(want, *g2, [&](IO& x, Vui& s) { syn_vui(x, s, msl); }, &key);
    if (!d.empty()) c.violation("vui bytes " + key, d);
  }
  // HRD parameters on their own, with any common/sub-layer arguments
  IO h(c.r);
  h.wild = io.wild;
  Hrd hw;
  uint32_t common = (uint32_t)c.r.below(2);
  try { syn_hrd(h, hw, common, msl); } catch (const StopGen&) { return; }
  h.w.trailing();
  c.note(fmt("hrd common %u msl %u %s", common, msl, hex(h.w.b).c_str()));
  Bytes he = escape(h.w.b);
  Exact hx(he);
  auto hg = H265HrdParametersParser::ParseHrdParameters(hx.p, hx.n, common, msl);
  if (!hg) c.violation("hrd refused", "valid hrd_parameters refused");
  else {
    d = compare(hw, *hg, [&](IO& x, Hrd& s) { syn_hrd(x, s, common, msl); }, &key);
    if (!d.empty()) c.violation("hrd " + key, d);
  }
}

VH_MODE(V05, 40000, 2000000, "one list of short-term reference picture sets, parsed set by set") {
  uint32_t num = 1 + (uint32_t)c.r.logbelow(64);
  double pw = c.r.chance(0.5) ? 0.1 : 0.4;
  RpsVec want, got;
  for (uint32_t i = 0; i <= num; i++) {
    bool slice = i == num;
    if (slice && c.r.chance(0.2)) break;
    IO io(c.r);
    io.wild = pw;
    auto w = std::make_unique<StRps>();
    try { syn_strps(io, *w, i, num, want, 15); } catch (const StopGen&) { return; }
    size_t end = io.w.n;
    io.w.append(c.r.bytes(1 + c.r.below(3)));
    c.note(fmt("set %u of %u bits %zu %s", i, num, end, hex(io.w.b).c_str()));
    Exact e(io.w.b);
    BitBuffer bb(e.p, e.n);
    auto g = H265StRefPicSetParser::ParseStRefPicSet(&bb, i, num, &got, 15);
    c.eval(mix(hash_bytes(io.w.b), i));
    if (!g) { c.violation("rps refused", "valid st_ref_pic_set refused"); return; }
    std::string key, d = compare(*w, *g, [&](IO& x, StRps& s) { syn_strps(x, s, i, num, want, 15); }, &key);
    if (!d.empty()) c.violation("rps " + key, d);
    size_t by, bi;
    bb.GetCurrentOffset(&by, &bi);
    if (by * 8 + bi != end) c.violation("rps position", fmt("position %zu, expected %zu", by * 8 + bi, end));
    c.count(w->inter_ref_pic_set_prediction_flag ? (slice ? "predicted in slice header" : "predicted") : "explicit");
    c.count("pictures derived", w->num_negative_pics + w->num_positive_pics);
    c.maximum("pictures in one set", w->num_negative_pics + w->num_positive_pics);
    if (i < num) { want.push_back(std::move(w)); got.push_back(std::move(g)); }
    // (d) refused forms: a prediction source that does not exist, values out of range
    if (c.r.chance(0.2)) {
      BitW b;
      int kind = (int)c.r.below(5);
      uint32_t idx = i, n2 = num;
      std::string what;
      if (idx != 0) b.bit(kind == 0 || kind == 1);
      if (kind == 0) {         // source before the first set
        if (idx == 0) continue;
        if (idx == n2) { b.ue(idx + (uint64_t)c.r.logbelow(1000)); what = "delta_idx_minus1 beyond the first set"; }
        else continue;
        b.bit(0); b.ue(0);
      } else if (kind == 1) {  // abs_delta_rps_minus1 > 2^15-1
        if (idx == 0) continue;
        if (idx == n2) b.ue(0);
        b.bit((int)c.r.below(2));
        b.ue(32768 + c.r.logbelow(0x7fff0000));
        what = "abs_delta_rps_minus1 out of range";
      } else if (kind == 2) {
        b.ue(16 + c.r.logbelow(0x7fffff00)); b.ue(0);
        what = "num_negative_pics out of range";
      } else if (kind == 3) {
        uint64_t k = c.r.below(16);
        b.ue(k); b.ue(16 - k + c.r.logbelow(1000));
        what = "num_positive_pics out of range";
      } else {
        b.ue(1); b.ue(0); b.ue(32768 + c.r.logbelow(0x7fff0000)); b.bit(1);
        what = "delta_poc_s0_minus1 out of range";
      }
      for (int k = 0; k < 200; k++) b.bit(1);
      c.note(fmt("refused set %u of %u: %s %s", idx, n2, what.c_str(), hex(b.b).c_str()));
      Exact x(b.b);
      BitBuffer b2(x.p, x.n);
      auto rj = H265StRefPicSetParser::ParseStRefPicSet(&b2, idx, n2, &got, 15);
      if (rj) c.violation("rps accepted: " + what, what + " was accepted");
      c.count("refused: " + what);
    }
  }
  c.sample(fmt("list of %zu sets", want.size()));
}

VH_MODE(V06, 20000, 1000000, "one generated scaling-list structure") {
  IO io(c.r);
  static const double w[] = {0.0, 0.1, 0.5, 1.0};
  io.wild = w[c.r.below(4)];
  if (c.r.chance(0.1)) io.pin["scaling_list_pred_mode_flag"] = c.r.below(2);
  Sld want;
  syn_sld(io, want);
  size_t end = io.w.n;
  io.w.append(c.r.bytes(2));
  c.note(fmt("bits %zu %s", end, hex(io.w.b).c_str()));
  Exact e(io.w.b);
  BitBuffer bb(e.p, e.n);
  auto got = H265ScalingListDataParser::ParseScalingListData(&bb);
  c.eval(hash_bytes(io.w.b));
  c.count("elements compared", io.tr.size());
  if (!got) { c.violation("scaling list refused", "valid scaling_list_data refused"); return; }
  std::string key, d = compare(want, *got, [&](IO& x, Sld& s) { syn_sld(x, s); }, &key);
  if (!d.empty()) c.violation("scaling list " + key, d);
  size_t by, bi;
  bb.GetCurrentOffset(&by, &bi);
  if (by * 8 + bi != end) c.violation("scaling list position", fmt("position %zu, expected %zu", by * 8 + bi, end));
  Bytes esc = escape(io.w.b);
  Exact f(esc);
  auto g2 = H265ScalingListDataParser::ParseScalingListData(f.p, f.n);
  if (!g2) c.violation("scaling list refused (bytes)", "refused");
  else if (!(d = compare(want, *g2, [&](IO& x, Sld& s) { syn_sld(x, s); }, &key)).empty()) c.violation("scaling list bytes " + key, d);
  for (auto& row : want.ScalingList) for (auto& l : row) if (l.size()) c.count("explicit lists");
}

template <class S, class Syn, class Parse>
static void ext_case(Ctx& c, const char* name, Syn syn, Parse parse) {
  IO io(c.r);
  static const double w[] = {0.0, 0.1, 0.5};
  io.wild = w[c.r.below(3)];
  S want;
  try { syn(io, want); } catch (const StopGen&) { c.count("over budget"); return; }
  size_t end = io.w.n;
  io.w.append(c.r.bytes(2));
  c.note(fmt("%s bits %zu %s", name, end, hex(io.w.b).c_str()));
  Exact e(io.w.b);
  BitBuffer bb(e.p, e.n);
  auto got = parse(&bb);
  c.eval(mix(hash_str(name), hash_bytes(io.w.b)));
  c.count(std::string(name) + " structures");
  if (!got) { c.violation(std::string(name) + " refused", "valid structure refused"); return; }
  std::string key, d = compare(want, *got, syn, &key);
  if (!d.empty()) c.violation(std::string(name) + " " + key, d);
  size_t by, bi;
  bb.GetCurrentOffset(&by, &bi);
  if (by * 8 + bi != end) c.violation(std::string(name) + " position", fmt("position %zu, expected %zu", by * 8 + bi, end));
}

VH_MODE(V07, 24000, 1000000, "one parameter-set extension alone, or one parameter set carrying extensions") {
  switch (c.r.below(8)) {
    case 0: ext_case<SpsRange>(c, "sps range", [](IO& io, SpsRange& s) { syn_sps_range(io, s); }, [](BitBuffer* b) { return H265SpsRangeExtensionParser::ParseSpsRangeExtension(b); }); break;
    case 1: ext_case<SpsMulti>(c, "sps multilayer", [](IO& io, SpsMulti& s) { syn_sps_multi(io, s); }, [](BitBuffer* b) { return H265SpsMultilayerExtensionParser::ParseSpsMultilayerExtension(b); }); break;
    case 2: ext_case<Sps3d>(c, "sps 3d", [](IO& io, Sps3d& s) { syn_sps_3d(io, s); }, [](BitBuffer* b) { return H265Sps3dExtensionParser::ParseSps3dExtension(b); }); break;
    case 3: {
      uint32_t cf = (uint32_t)c.r.below(4), bl = (uint32_t)c.r.below(9), bc = (uint32_t)c.r.below(9);
      ext_case<SpsScc>(c, "sps scc", [=](IO& io, SpsScc& s) { syn_sps_scc(io, s, cf, bl, bc); }, [=](BitBuffer* b) { return H265SpsSccExtensionParser::ParseSpsSccExtension(b, cf, bl, bc); });
      break;
    }
    case 4: ext_case<PpsMulti>(c, "pps multilayer", [](IO& io, PpsMulti& s) { syn_pps_multi(io, s); }, [](BitBuffer* b) { return H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(b); }); break;
    case 5: ext_case<PpsScc>(c, "pps scc", [](IO& io, PpsScc& s) { syn_pps_scc(io, s); }, [](BitBuffer* b) { return H265PpsSccExtensionParser::ParsePpsSccExtension(b); }); break;
    case 6: {
      Gen g(c.r);
      vary(c, g.o);
      g.o.pin["sps_extension_present_flag"] = 1;
      Unit u = g.make_sps();
      check_set(c, u, "sps", [](const uint8_t* p, size_t n) { return H265SpsParser::ParseSps(p, n); }, [&](const Sps& s, std::string* k) { return cmp_sps(*u.sps, s, k); });
      c.count(fmt("sps extension combination %u%u%u%u", u.sps->sps_range_extension_flag, u.sps->sps_multilayer_extension_flag, u.sps->sps_3d_extension_flag, u.sps->sps_scc_extension_flag));
      break;
    }
    default: {
      Gen g(c.r);
      vary(c, g.o);
      g.o.pin["pps_extension_present_flag"] = 1;
      Unit u = g.make_pps();
      check_set(c, u, "pps", [](const uint8_t* p, size_t n) { return H265PpsParser::ParsePps(p, n); }, [&](const Pps& s, std::string* k) { return cmp_pps(*u.pps, s, k); });
      c.count(fmt("pps extension combination %u%u", u.pps->pps_multilayer_extension_flag, u.pps->pps_scc_extension_flag));
      break;
    }
  }
}

VH_MODE(V08, 20000, 1000000, "one generated picture parameter set, distinct by presence pattern and coded bytes") {
  Gen g(c.r);
  vary(c, g.o);
  g.o.max_sps_id = 15;
  g.o.max_pps_id = 63;
  Unit u = g.make_pps();
  if (u.pps->tiles_enabled_flag) c.count(u.pps->uniform_spacing_flag ? "uniform tiles" : "explicit tiles");
  check_set(c, u, "pps", [](const uint8_t* p, size_t n) { return H265PpsParser::ParsePps(p, n); },
            [&](const Pps& s, std::string* k) { return cmp_pps(*u.pps, s, k); });
}

static void put(PState& st, const Gen& g, Ctx& c, const std::vector<const Unit*>& sets) {
  (void)g;
  for (auto* u : sets) {
    Exact e(u->nal);
    auto n = H265NalUnitParser::ParseNalUnit(e.p, e.n, &st, opts_all());
    if (!n || !n->nal_unit_payload || (!n->nal_unit_payload->sps && !n->nal_unit_payload->pps && !n->nal_unit_payload->vps))
      c.violation("set refused", "valid parameter set refused");
  }
}

static void slice_case(Ctx& c, Opts o, int slices, bool pwt) {
  Gen g(c.r);
  g.o = o;
  g.o.max_sps_id = 1;
  g.o.max_pps_id = 1;
  Unit sps = g.make_sps();
  Unit pps = g.make_pps(sps.sps->sps_seq_parameter_set_id);
  PState st;
  std::string sets = "sps " + hex(sps.nal) + " pps " + hex(pps.nal);
  c.note(sets);
  put(st, g, c, {&sps, &pps});
  static const uint32_t types[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 18, 19, 20, 21};
  for (int i = 0; i < slices; i++) {
    // reserved IRAP types: only the header parser itself takes them
    bool reserved = !pwt && c.r.chance(0.05);
    long nut = reserved ? 22 + (long)c.r.below(2) : pwt ? (c.r.chance(0.8) ? (long)c.r.below(10) : 21) : (long)types[c.r.below(16)];
    Gen g2(c.r);
    g2.o = o;
    g2.sps = g.sps;
    g2.pps = g.pps;
    Unit u = g2.make_slice(nut);
    if (!u.slice) continue;
    c.note(sets + " slice " + hex(u.nal));
    Exact e(u.nal);
    std::string key, d;
    if (!reserved) {
      auto n = H265NalUnitParser::ParseNalUnit(e.p, e.n, &st, opts_all());
      d = cmp_unit(u, n.get(), &key);
      if (!d.empty()) c.violation(key, d);
    }
    c.eval(mix(shape_hash(u.tr), hash_bytes(u.raw)));
    c.count("elements compared", u.tr.size());
    c.count(fmt("slice_type %u", u.slice->dependent_slice_segment_flag ? 9 : u.slice->slice_type));
    if (u.slice->pred_weight_table) {
      c.count(fmt("weight table, chroma array type %u, %s", ref_chroma_array_type(*u.ssps), u.slice->slice_type == 0 ? "B" : "P"));
      c.maximum("list 0 size", u.slice->num_ref_idx_l0_active_minus1 + 1);
      if (u.slice->slice_type == 0) c.maximum("list 1 size", u.slice->num_ref_idx_l1_active_minus1 + 1);
    }
    if (u.slice->num_entry_point_offsets) c.count("with entry points");
    if (u.slice->num_long_term_pics + u.slice->num_long_term_sps) c.count("with long-term pictures");
    if (u.slice->st_ref_pic_set) c.count(u.slice->st_ref_pic_set->inter_ref_pic_set_prediction_flag ? "own predicted set" : "own explicit set");
    c.sample(fmt("slice nut %u: %zu elements", u.nut, u.tr.size()));
    // the header parser on its own
    Bytes pay = escape(payload_of(u));
    Exact p(pay);
    auto h = H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(p.p, p.n, u.nut, &st);
    if (!h) c.violation("slice header refused", "valid slice segment header refused by the direct parser");
    else if (!(d = cmp_slice(*u.slice, *h, *u.ssps, *u.spps, &key)).empty()) c.violation("direct " + key, d);
  }
}

VH_MODE(V09, 12000, 500000, "one slice segment header with its parameter sets, distinct by presence pattern and bytes") {
  Opts o;
  vary(c, o);
  o.pin["scaling_list_enabled_flag"] = 0;
  o.pin["vui_parameters_present_flag"] = 0;
  if (c.r.chance(0.8)) o.pin["lists_modification_present_flag"] = 0;
  if (c.r.chance(0.3)) o.pin["num_short_term_ref_pic_sets"] = 1 + c.r.below(3);
  if (c.r.chance(0.1)) o.pin["num_long_term_ref_pics_sps"] = 2 + c.r.below(4);
  slice_case(c, o, 4, false);
}

VH_MODE(V10, 12000, 500000, "one slice header carrying a prediction weight table, distinct by presence pattern and bytes") {
  Opts o;
  vary(c, o);
  o.pin["scaling_list_enabled_flag"] = 0;
  o.pin["vui_parameters_present_flag"] = 0;
  o.pin["lists_modification_present_flag"] = 0;
  o.pin["weighted_pred_flag"] = 1;
  o.pin["weighted_bipred_flag"] = 1;
  o.pin["slice_type"] = c.r.below(2);
  if (c.r.chance(0.9)) o.pin["dependent_slice_segment_flag"] = 0;
  slice_case(c, o, 3, true);
  // the table parser on its own
  IO io(c.r);
  io.wild = o.wild;
  uint32_t chroma = (uint32_t)c.r.below(4), n0 = 1 + (uint32_t)c.r.below(15);
  bool is_b = c.r.chance(0.5);
  uint32_t n1 = is_b ? 1 + (uint32_t)c.r.below(15) : 0;
  Pwt want;
  syn_pwt(io, want, chroma, n0, n1);
  io.w.trailing();
  c.note(fmt("table chroma %u n0 %u n1 %u %s", chroma, n0, n1, hex(io.w.b).c_str()));
  Bytes esc = escape(io.w.b);
  Exact e(esc);
  auto got = H265PredWeightTableParser::ParsePredWeightTable(e.p, e.n, chroma, n0 - 1, is_b, is_b ? n1 - 1 : 0);
  c.eval(hash_bytes(io.w.b));
  std::string key, d;
  if (!got) c.violation("table refused", "valid table refused");
  else if (!(d = compare(want, *got, [&](IO& x, Pwt& s) { syn_pwt(x, s, chroma, n0, n1); }, &key)).empty()) c.violation("table " + key, d);
}

VH_MODE(V11, 60000, 3000000, "one supplemental message or delimiter, distinct by bytes") {
  if (c.cur % 15000 == 77) {   // type and size at the limit of what can be represented, and one beyond
    int field = (int)(c.cur / 15000 % 2);
    for (uint8_t last : {0, 1}) {
      Bytes b;
      if (field == 1) b.push_back(5);
      b.insert(b.end(), 16843009, 0xff);
      b.push_back(last);
      if (field == 0) { b.push_back(1); b.push_back(0x42); }
      b.push_back(0x80);
      c.note(fmt("%s of 2^32-1+%d", field ? "size" : "type", last));
      c.eval(mix((uint64_t)field, last));
      Exact e(b);
      auto s = H265SeiMessageParser::ParseSei(e.p, e.n);
      c.count("messages with an enormous type or size");
      if (last == 1) {
        if (s && s->payload_state) c.violation("sei type or size that cannot be represented", fmt("accepted as type %u size %u", (unsigned)s->payload_type, s->payload_size));
      } else if (field == 0) {
        if (!s || (uint32_t)s->payload_type != 0xffffffffu || s->payload_size != 1) c.violation("sei enormous type", s ? fmt("reported as type %u size %u", (unsigned)s->payload_type, s->payload_size) : "refused");
      } else if (s && s->payload_state) {
        c.violation("sei enormous size", fmt("accepted with size %u", s->payload_size));
      }
    }
    return;
  }
  Gen g(c.r);
  vary(c, g.o);
  if (c.cur % 1500 == 60) {   // long user data and long unknown payloads
    g.o.pin["sei bytes"] = (int64_t)(wrap_size(c.r, 65536) + c.r.below(2000));
    if (c.r.chance(0.7)) g.o.pin["payload_type"] = c.r.chance(0.5) ? 4 : 5;
    g.o.budget = 1 << 22;
    c.count("long supplemental payloads");
  }
  Unit u = c.r.chance(0.05) ? g.make_aud() : g.make_sei();
  c.note("unit", u.nal);
  Exact e(u.nal);
  PState st;
  auto n = H265NalUnitParser::ParseNalUnit(e.p, e.n, &st, opts_all());
  std::string key, d = cmp_unit(u, n.get(), &key);
  uint32_t ty = u.sei ? (uint32_t)u.sei->payload_type : 0;
  bool known = false;
  for (uint32_t t : kSeiTypes) known = known || t == ty;
  std::string who = u.aud ? "aud" : known ? fmt("sei type %u", ty) : std::string("sei other type");
  if (!d.empty()) c.violation(who + " " + key, d);
  observe(c, u);
  c.count(who);
  Bytes pay = escape(payload_of(u));
  Exact p(pay);
  if (u.aud) {
    auto a = H265AudParser::ParseAud(p.p, p.n);
    if (!a || a->pic_type != u.aud->pic_type) c.violation("aud direct", "direct delimiter parser differs");
  } else {
    auto s = H265SeiMessageParser::ParseSei(p.p, p.n);
    if (!s) c.violation(who + " refused", "valid message refused");
    else if (!(d = cmp_sei(*u.sei, *s, &key)).empty()) c.violation(who + " direct " + key, d);
  }
  // several messages: the first is reported
  if (u.sei && c.r.chance(0.2)) {
    Unit v = g.make_sei(), w = u;
    Bytes a = payload_of(u), b = payload_of(v);
    a.pop_back();  // trailing bits byte
    a.insert(a.end(), b.begin(), b.end());
    finish(w, a);
    c.note("unit", w.nal);
    Exact e2(w.nal);
    auto n2 = H265NalUnitParser::ParseNalUnit(e2.p, e2.n, &st, opts_all());
    if (!(d = cmp_unit(w, n2.get(), &key)).empty()) c.violation(who + " followed by another: " + key, d);
    c.count("two messages in one unit");
  }
}

// ---------------------------------------------------------------- V12, V13
// Any structure that can be parsed from bytes on its own; the result is reduced to "accepted" and a comparison.
struct Subject {
  std::string name;
  std::function<void(IO&)> gen;                                  // writes a structure (expected result kept inside)
  std::function<bool(const uint8_t*, size_t, std::string*, std::string*)> parse;  // accepted?; optional comparison with the expected result
};
template <class S, class Syn, class Parse> static Subject subject(const char* n, Syn syn, Parse parse) {
  auto want = std::make_shared<std::unique_ptr<S>>();
  Subject s;
  s.name = n;
  s.gen = [=](IO& io) { want->reset(new S()); syn(io, **want); };
  s.parse = [=](const uint8_t* p, size_t len, std::string* d, std::string* k) {
    auto got = parse(p, len);
    if (!got) return false;
    if (d) *d = compare(**want, *got, syn, k);
    return true;
  };
  return s;
}
struct SliceCtx { Unit sps, pps; PState st; };
static Subject pick_subject(Ctx& c, std::shared_ptr<SliceCtx>& sc, bool with_aud) {
  switch (c.r.below(with_aud ? 12 : 10)) {
    case 0: case 1: return subject<Vps>("vps", [](IO& io, Vps& s) { syn_vps(io, s); }, [](const uint8_t* p, size_t n) { return H265VpsParser::ParseVps(p, n); });
    case 2: case 3: case 4: return subject<Sps>("sps", [](IO& io, Sps& s) { syn_sps(io, s); }, [](const uint8_t* p, size_t n) { return H265SpsParser::ParseSps(p, n); });
    case 5: case 6: return subject<Pps>("pps", [](IO& io, Pps& s) { syn_pps(io, s); }, [](const uint8_t* p, size_t n) { return H265PpsParser::ParsePps(p, n); });
    case 7: {
      uint32_t msl = (uint32_t)c.r.below(7);
      return subject<Vui>("vui", [=](IO& io, Vui& s) { syn_vui(io, s, msl); if (io.gen()) io.w.trailing(); }, [=](const uint8_t* p, size_t n) { return H265VuiParametersParser::ParseVuiParameters(p, n, msl); });
    }
    case 10: return subject<Aud>("aud", [](IO& io, Aud& s) { syn_aud(io, s); }, [](const uint8_t* p, size_t n) { return H265AudParser::ParseAud(p, n); });
    case 11: return subject<Sei>("sei", [](IO& io, Sei& s) { syn_sei(io, s); }, [](const uint8_t* p, size_t n) {
      auto s = H265SeiMessageParser::ParseSei(p, n);
      if (s && !s->payload_state) s = nullptr;   // a message without content is no result for the payload
      return s; });
    default: {
      sc = std::make_shared<SliceCtx>();
      Gen g(c.r);
      g.o.pin["lists_modification_present_flag"] = 0;
      g.o.pin["scaling_list_enabled_flag"] = 0;
      g.o.pin["vui_parameters_present_flag"] = 0;
      sc->sps = g.make_sps();
      sc->pps = g.make_pps(sc->sps.sps->sps_seq_parameter_set_id);
      for (auto* u : {&sc->sps, &sc->pps}) H265NalUnitParser::ParseNalUnit(u->nal.data(), u->nal.size(), &sc->st);
      uint32_t nut = (uint32_t)(c.r.chance(0.8) ? c.r.below(10) : 19 + c.r.below(3));
      auto k = sc;
      return subject<Slice>("slice", [=](IO& io, Slice& s) { syn_slice(io, s, nut, *k->sps.sps, *k->pps.pps); },
                            [=](const uint8_t* p, size_t n) { return H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(p, n, nut, &k->st); });
    }
  }
}
// Replaces the value of element |e| in |b|.
static Bytes rewrite(const Bytes& b, size_t nbits, const Elem& e, int64_t v) {
  BitR rd(b);
  BitW w;
  while (rd.p < e.pos) w.bit(rd.bit());
  if (e.kind == 'e') w.ue((uint64_t)v);
  else if (e.kind == 's') w.se(v);
  else w.put((uint64_t)v, e.nbits);
  rd.p = e.pos + (size_t)e.nbits;
  while (rd.p < nbits) w.bit(rd.bit());
  for (int i = 0; i < 800; i++) w.bit(1);   // enough bits for whatever the value makes the parser read
  w.trailing();
  return w.b;
}

VH_MODE(V12, 30000, 1200000, "one enforced element of one structure forced to a boundary or beyond") {
  std::shared_ptr<SliceCtx> sc;
  Subject s = pick_subject(c, sc, false);
  // find the enforced elements of a random structure
  Rng keep = c.r;
  Rng r1 = keep;
  IO io(r1);
  io.wild = 0.1;
  io.budget = 60000;
  try { s.gen(io); } catch (const StopGen&) { c.count("over budget"); return; }
  std::map<std::string, std::vector<size_t>> by;
  for (size_t i = 0; i < io.tr.size(); i++) if (io.tr[i].enforced) by[io.tr[i].name].push_back(i);
  if (by.empty()) { c.count("no enforced element"); return; }
  // deterministic rotation over the element names, so that rare ones are reached
  auto it = by.begin();
  std::advance(it, c.r.below(by.size()));
  size_t idx = it->second[c.r.below(it->second.size())];
  Elem e = io.tr[idx];
  std::string nm = s.name + "." + strip_idx(e.name);
  auto show = [&](const Bytes& b) { std::string x = sc ? "sps " + hex(sc->sps.nal) + " pps " + hex(sc->pps.nal) + " " : ""; return x + s.name + " " + hex(b); };
  // boundary values accepted: the structure is generated again with the value forced (so that it stays consistent)
  for (int64_t v : {e.lo, e.hi}) {
    if (c.r.chance(0.5)) continue;
    Rng r2 = keep;
    IO io2(r2);
    io2.wild = 0.1;
    io2.budget = 3000000;
    io2.force_idx = (long)idx;
    io2.force_val = v;
    try { s.gen(io2); } catch (const StopGen&) { continue; }
    if (idx >= io2.tr.size() || strcmp(io2.tr[idx].name, e.name) || io2.tr[idx].val != v) { c.count("forced value did not apply"); continue; }
    bool ok = true;   // the other enforced elements must have stayed in range
    for (auto& x : io2.tr) if (x.enforced && (x.val < x.lo || x.val > x.hi)) ok = false;
    if (!ok) { c.count("inconsistent, skipped"); continue; }
    Bytes esc = escape(io2.w.b);
    c.note(fmt("%s=%lld (accepted) ", nm.c_str(), (long long)v) + show(esc));
    Exact x(esc);
    std::string d, k;
    bool acc = s.parse(x.p, x.n, &d, &k);
    c.eval(mix(hash_str(nm), hash_bytes(io2.w.b)));
    c.count(std::string(v == e.lo ? "minimum" : "maximum") + " accepted");
    if (!acc) c.violation(nm + " boundary refused", fmt("%s=%lld (range %lld..%lld) refused", e.path.c_str(), (long long)v, (long long)e.lo, (long long)e.hi));
    else if (!d.empty()) c.violation(nm + " boundary: " + k, d);
  }
  // outside values refused
  std::vector<int64_t> out;
  int64_t cmax = e.kind == 'e' ? 0xFFFFFFFEll : e.kind == 's' ? 0x7FFFFFFFll : e.nbits >= 63 ? INT64_MAX : ((int64_t)1 << e.nbits) - 1;
  int64_t cmin = e.kind == 's' ? -0x7FFFFFFFll : 0;
  for (int64_t d : {(int64_t)1, (int64_t)2, (int64_t)8, (int64_t)64, (int64_t)256, (int64_t)65536, (int64_t)c.r.logbelow(1u << 30) + 1}) {
    out.push_back(e.hi + d);
    out.push_back(e.lo - d);
  }
  out.push_back(cmax);
  out.push_back(cmin);
  if (e.kind == 'e') out.push_back(0x80000000ll + (int64_t)c.r.below(64));
  for (int64_t v : out) {
    if (v > cmax || v < cmin || (v >= e.lo && v <= e.hi)) continue;
    if (c.r.chance(0.4)) continue;
    Bytes b = rewrite(io.w.b, io.w.n, e, v);
    Bytes esc = escape(b);
    c.note(fmt("%s=%lld (refused) ", nm.c_str(), (long long)v) + show(esc));
    Exact x(esc);
    bool acc = s.parse(x.p, x.n, nullptr, nullptr);
    c.eval(mix(hash_str(nm), hash_bytes(b)));
    c.count(v > e.hi ? "above range refused" : "below range refused");
    if (acc) c.violation(nm + " accepted out of range", fmt("%s=%lld accepted although the range is %lld..%lld", e.path.c_str(), (long long)v, (long long)e.lo, (long long)e.hi));
  }
  c.count("element " + nm);
}

VH_MODE(V13, 12000, 500000, "one valid structure and one place where it is cut") {
  std::shared_ptr<SliceCtx> sc;
  Subject s = pick_subject(c, sc, true);
  IO io(c.r);
  io.wild = 0.1;
  io.budget = 30000;
  try { s.gen(io); } catch (const StopGen&) { c.count("over budget"); return; }
  size_t need = 0;
  for (auto& e : io.tr) if (!strstr(e.name, "extension_data_flag")) need = std::max(need, e.pos + (size_t)e.nbits);
  if (need == 0) return;
  size_t max = (need - 1) / 8;   // longest prefix that lacks a required bit
  std::string ctx = sc ? "sps " + hex(sc->sps.nal) + " pps " + hex(sc->pps.nal) + " " : "";
  {
    Bytes esc = escape(io.w.b);
    c.note(ctx + s.name + " whole " + hex(esc));
    Exact x(esc);
    std::string d, k;
    if (!s.parse(x.p, x.n, &d, &k)) { c.violation(s.name + " refused", "valid structure refused"); return; }
  }
  std::string before = sc ? dump_state(sc->st) : "";
  size_t step = max > 60 ? max / 40 : 1;
  for (size_t cut = max + 1; cut-- > 0;) {
    if (cut + 3 < max && step > 1 && c.r.below(step) != 0) continue;
    Bytes b(io.w.b.begin(), io.w.b.begin() + (long)cut);
    Bytes esc;
    { // the cut payload as it would be carried (no final byte is added: the cut falls anywhere)
      int z = 0;
      for (uint8_t q : b) { if (z == 2 && q <= 3) { esc.push_back(3); z = 0; } esc.push_back(q); z = q == 0 ? z + 1 : 0; }
    }
    c.note(fmt("%s%s cut to %zu of %zu bytes %s", ctx.c_str(), s.name.c_str(), cut, io.w.b.size(), hex(esc).c_str()));
    Exact x(esc);
    bool acc = s.parse(x.p, x.n, nullptr, nullptr);
    c.eval(mix(hash_str(s.name), mix(hash_bytes(b), cut)));
    c.count(s.name + " cuts");
    if (acc) c.violation(s.name + " cut accepted", fmt("%s cut to %zu of %zu bytes (last required bit %zu) gave a result", s.name.c_str(), cut, io.w.b.size(), need));
    // as a unit: nothing reported, the state is untouched
    uint32_t nut = s.name == "vps" ? 32 : s.name == "sps" ? 33 : s.name == "pps" ? 34 : s.name == "aud" ? 35 : s.name == "sei" ? 39 : 99;
    if (nut < 64 && c.r.chance(0.3)) {
      Unit u;
      u.nut = nut;
      finish(u, b);
      u.nal.resize(2);
      u.nal.insert(u.nal.end(), esc.begin(), esc.end());
      PState st;
      Exact y(u.nal);
      auto n = H265NalUnitParser::ParseNalUnit(y.p, y.n, &st, opts_all());
      bool any = n && n->nal_unit_payload && (n->nal_unit_payload->vps || n->nal_unit_payload->sps || n->nal_unit_payload->pps || n->nal_unit_payload->aud ||
                                              (n->nal_unit_payload->sei && n->nal_unit_payload->sei->payload_state));
      if (any) c.violation(s.name + " cut unit accepted", "cut unit reported as parsed");
      if (!st.vps.empty() || !st.sps.empty() || !st.pps.empty()) c.violation(s.name + " cut unit changed the state", "parser state changed");
    }
  }
  if (sc && dump_state(sc->st) != before) c.violation("slice cut changed the state", "parser state changed by cut slices");
}
}  // namespace vh
