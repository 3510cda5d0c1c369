// D01, D02: values derived from parse results.
#include <math.h>
#include <string.h>

#include <limits>

#include "build.h"

namespace vh {

// Table 6-1 and equations (7-10)..(7-20), computed in 64 bits.
static int sub_w(const Sps& s) { return !s.separate_colour_plane_flag && (s.chroma_format_idc == 1 || s.chroma_format_idc == 2) ? 2 : 1; }
static int sub_h(const Sps& s) { return !s.separate_colour_plane_flag && s.chroma_format_idc == 1 ? 2 : 1; }
struct Want { int64_t w, h; SpsDims d; };
static Want want_of(const Sps& s) {
  Want x;
  x.w = (int64_t)s.pic_width_in_luma_samples - sub_w(s) * ((int64_t)s.conf_win_left_offset + s.conf_win_right_offset);
  x.h = (int64_t)s.pic_height_in_luma_samples - sub_h(s) * ((int64_t)s.conf_win_top_offset + s.conf_win_bottom_offset);
  x.d.min_cb_log2 = s.log2_min_luma_coding_block_size_minus3 + 3;
  x.d.ctb_log2 = x.d.min_cb_log2 + s.log2_diff_max_min_luma_coding_block_size;
  uint64_t m = 1ull << x.d.min_cb_log2, ctb = 1ull << x.d.ctb_log2;
  uint64_t W = s.pic_width_in_luma_samples, H = s.pic_height_in_luma_samples;
  x.d.w_min_cb = W / m;
  x.d.h_min_cb = H / m;
  x.d.w_ctb = (W + ctb - 1) / ctb;
  x.d.h_ctb = (H + ctb - 1) / ctb;
  x.d.samples = W * H;
  return x;
}
static void check_sps(Ctx& c, const Sps& want, const Sps& got, const char* where) {
  Want x = want_of(want);
  auto eq = [&](const char* n, uint64_t w, uint64_t g) {
    c.count("derived values compared");
    if (w != g) c.violation(n, fmt("%s: %s is %llu, expected %llu (%ux%u, min %u diff %u)", where, n, (unsigned long long)g, (unsigned long long)w,
                                   want.pic_width_in_luma_samples, want.pic_height_in_luma_samples,
                                   want.log2_min_luma_coding_block_size_minus3, want.log2_diff_max_min_luma_coding_block_size));
  };
  eq("MinCbLog2SizeY", x.d.min_cb_log2, got.getMinCbLog2SizeY());
  eq("CtbLog2SizeY", x.d.ctb_log2, got.getCtbLog2SizeY());
  eq("MinCbSizeY", 1ull << x.d.min_cb_log2, got.getMinCbSizeY());
  eq("CtbSizeY", 1ull << x.d.ctb_log2, got.getCtbSizeY());
  eq("PicWidthInMinCbsY", x.d.w_min_cb, got.getPicWidthInMinCbsY());
  eq("PicHeightInMinCbsY", x.d.h_min_cb, got.getPicHeightInMinCbsY());
  eq("PicWidthInCtbsY", x.d.w_ctb, got.getPicWidthInCtbsY());
  eq("PicHeightInCtbsY", x.d.h_ctb, got.getPicHeightInCtbsY());
  eq("PicSizeInMinCbsY", x.d.w_min_cb * x.d.h_min_cb, got.getPicSizeInMinCbsY());
  eq("PicSizeInCtbsY", x.d.w_ctb * x.d.h_ctb, got.getPicSizeInCtbsY());
  eq("PicSizeInSamplesY", x.d.samples, got.getPicSizeInSamplesY());
  eq("SubWidthC", (uint64_t)sub_w(want), (uint64_t)(int64_t)got.getSubWidthC());
  eq("SubHeightC", (uint64_t)sub_h(want), (uint64_t)(int64_t)got.getSubHeightC());
  int w = -7777, h = -7777;
  int rc = got.getResolution(&w, &h);
  if (rc != 0 || w != x.w || h != x.h)
    c.violation(fmt("resolution, chroma %u%s", want.chroma_format_idc, want.separate_colour_plane_flag ? " separate" : ""),
                fmt("%s: %dx%d (rc %d), expected %lldx%lld: %ux%u, window %u %u %u %u", where, w, h, rc, (long long)x.w, (long long)x.h,
                    want.pic_width_in_luma_samples, want.pic_height_in_luma_samples, want.conf_win_left_offset, want.conf_win_right_offset,
                    want.conf_win_top_offset, want.conf_win_bottom_offset));
  if (w <= 0 || h <= 0 || w > (int64_t)got.pic_width_in_luma_samples || h > (int64_t)got.pic_height_in_luma_samples)
    c.violation("resolution not meaningful", fmt("%s: %dx%d", where, w, h));
  c.count(fmt("resolutions, chroma %u%s%s", want.chroma_format_idc, want.separate_colour_plane_flag ? " separate" : "",
              x.w != want.pic_width_in_luma_samples || x.h != want.pic_height_in_luma_samples ? " cropped" : ""));
}
// value of the only "name: value" in a one-line dump
static bool dumped(const std::string& s, const char* name, std::string* val) {
  std::string k = std::string(" ") + name + ": ";
  size_t p = s.find(k);
  if (p == std::string::npos || s.find(k, p + 1) != std::string::npos) return false;
  p += k.size();
  size_t e = s.find(' ', p);
  *val = s.substr(p, e - p);
  return true;
}

VH_MODE(D01, 15000, 3000000, "one parameter set with its derived values; distinct by its bits") {
  Gen g(c.r);
  g.o.wild = c.r.chance(0.3) ? 0.4 : 0.1;
  g.o.budget = 20000;
  g.o.pin["scaling_list_enabled_flag"] = 0;
  if (c.r.chance(0.8)) g.o.pin["conformance_window_flag"] = 1;
  g.o.pin["vui_parameters_present_flag"] = c.r.chance(0.3);
  if (c.r.chance(0.9)) g.o.pin["sps_extension_present_flag"] = 0;
  Unit u = g.make_sps();
  c.note("sps", u.nal);
  c.eval(hash_bytes(u.raw));
  PState st;
  {
    Exact e(u.nal);
    auto n = H265NalUnitParser::ParseNalUnit(e.p, e.n, &st, opts_all());
    auto* p = n ? n->nal_unit_payload.get() : nullptr;
    if (!p || !p->sps) { c.violation("valid parameter set refused", hex(u.nal, 400)); return; }
    check_sps(c, *u.sps, *p->sps, "parsed");
    Want x = want_of(*u.sps);
    auto o = opts_from(0);
    o.add_resolution = true;
    for (int round = 0; round < 2; round++) {
      std::string t = capture([&](FILE* f) { p->sps->fdump(f, -1, o); }), w, h;
      bool has = dumped(t, "width", &w) && dumped(t, "height", &h);
      if (round == 0 && (!has || w != fmt("%lld", (long long)x.w) || h != fmt("%lld", (long long)x.h)))
        c.violation("resolution in the dump", fmt("'%s' x '%s', expected %lldx%lld", w.c_str(), h.c_str(), (long long)x.w, (long long)x.h));
      if (round == 1 && has) c.violation("resolution in the dump without the option", t.substr(0, 200));
      o.add_resolution = false;
    }
    int v = 0;
    if (p->sps->getResolution(nullptr, &v) == 0 || p->sps->getResolution(&v, nullptr) == 0) c.violation("resolution without a destination", "reported as successful");
    if (p->sps->vui_parameters && p->sps->vui_parameters->vui_timing_info_present_flag && p->sps->vui_parameters->vui_num_units_in_tick) {
      auto& vui = *u.sps->vui_parameters;
      double want = (double)vui.vui_time_scale / (double)vui.vui_num_units_in_tick;
      double got = (double)p->sps->vui_parameters->getFramerate();
      c.count("frame rates compared");
      if (!(fabs(got - want) <= 4e-7 * want)) c.violation("frame rate", fmt("%g, expected %u/%u", got, vui.vui_time_scale, vui.vui_num_units_in_tick));
    }
  }
  // the widths used for parsing: a slice segment somewhere in the picture
  if (c.r.chance(0.3)) {
    Want x = want_of(*u.sps);
    if (x.d.w_ctb * x.d.h_ctb > 1) {
      Unit q = g.make_pps((long)u.sps->sps_seq_parameter_set_id);
      g.o.pin["first_slice_segment_in_pic_flag"] = 0;
      Unit s = g.make_slice();
      for (Unit* y : {&q, &s}) {
        c.note("then", y->nal);
        Exact e(y->nal);
        auto n = H265NalUnitParser::ParseNalUnit(e.p, e.n, &st, opts_from(0));
        std::string key, d = cmp_payload(*y, n ? n->nal_unit_payload.get() : nullptr, &key);
        if (!d.empty()) c.violation(std::string("parsing with the derived widths: ") + key, d);
      }
      if (s.slice) c.count("slice addresses parsed");
    }
  }
  // any damaged set that is still accepted has meaningful values
  for (int t = 0; t < 4; t++) {
    Bytes m = u.raw;
    if (t < 2) {
      Gen h(c.r);
      h.o = g.o;
      // windows around and far beyond the size of the picture
      h.o.pin["conformance_window_flag"] = 1;
      for (const char* k : {"conf_win_left_offset", "conf_win_right_offset", "conf_win_top_offset", "conf_win_bottom_offset"}) {
        uint64_t x = c.r.below(4);
        if (x == 0) h.o.pin[k] = (int64_t)c.r.below(200);
        if (x == 1) h.o.pin[k] = (int64_t)c.r.below(17000);
        if (x == 2) h.o.pin[k] = (int64_t)(0x80000000u - 5 + c.r.below(10));
        if (x == 3) h.o.pin[k] = (int64_t)(0xfffffff0u + c.r.below(14));
        if (c.r.chance(0.6)) h.o.pin[k] = (int64_t)c.r.below(5);
      }
      m = h.make_sps().raw;
    } else {
      Bytes tail(m.begin() + 2, m.end());
      mutate(c.r, tail, 1 + (int)c.r.below(2));
      m.resize(2);
      m.insert(m.end(), tail.begin(), tail.end());
    }
    c.note("damaged sps", m);
    Exact e(m);
    PState s2;
    auto n = H265NalUnitParser::ParseNalUnitUnescaped(e.p, e.n, &s2, opts_from(0));
    auto* p = n ? n->nal_unit_payload.get() : nullptr;
    c.count(p && p->sps ? "damaged sets accepted" : "damaged sets refused");
    if (p && p->sps) {
      if (p->sps->chroma_format_idc > 3) { c.violation("chroma format out of range accepted", hex(m, 200)); continue; }
      check_sps(c, *p->sps, *p->sps, "damaged");
    }
  }
  // the value functions over the whole range of dimensions and windows
  for (int t = 0; t < 20; t++) {
    Sps s;
    s.chroma_format_idc = (uint32_t)c.r.below(4);
    s.separate_colour_plane_flag = s.chroma_format_idc == 3 ? (uint32_t)c.r.below(2) : 0;
    s.log2_min_luma_coding_block_size_minus3 = (uint32_t)c.r.below(4);
    s.log2_diff_max_min_luma_coding_block_size = (uint32_t)c.r.below(4 - s.log2_min_luma_coding_block_size_minus3);
    uint32_t m = 8u << s.log2_min_luma_coding_block_size_minus3, most = 16888 / m;
    auto pick = [&] { return m * (uint32_t)(1 + (c.r.chance(0.3) ? (c.r.chance(0.5) ? 0 : most - 1) : c.r.below(most))); };
    s.pic_width_in_luma_samples = pick();
    s.pic_height_in_luma_samples = pick();
    s.conformance_window_flag = (uint32_t)c.r.below(2);
    if (s.conformance_window_flag) {
      auto win = [&](uint32_t size, uint32_t unit, uint32_t& a, uint32_t& b) {
        uint32_t room = (size - 1) / unit;
        a = (uint32_t)c.r.below(c.r.chance(0.5) ? std::min(room + 1, 9u) : room + 1);
        b = (uint32_t)c.r.below(room - a + 1);
        if (c.r.chance(0.1)) b = room - a;
      };
      win(s.pic_width_in_luma_samples, (uint32_t)sub_w(s), s.conf_win_left_offset, s.conf_win_right_offset);
      win(s.pic_height_in_luma_samples, (uint32_t)sub_h(s), s.conf_win_top_offset, s.conf_win_bottom_offset);
    }
    check_sps(c, s, s, "direct");
  }
  c.sample(fmt("%ux%u window %u %u %u %u chroma %u", u.sps->pic_width_in_luma_samples, u.sps->pic_height_in_luma_samples, u.sps->conf_win_left_offset,
               u.sps->conf_win_right_offset, u.sps->conf_win_top_offset, u.sps->conf_win_bottom_offset, u.sps->chroma_format_idc));
}

static bool qp_of(const Unit& u, int64_t* qp) {
  if (!u.slice || u.broken) return false;
  *qp = 26 + (int64_t)u.spps->init_qp_minus26 + u.slice->slice_qp_delta;
  return *qp >= std::numeric_limits<int32_t>::min() && *qp <= std::numeric_limits<int32_t>::max();
}
static std::string show(const std::vector<int32_t>& v) {
  std::string s;
  for (auto x : v) s += fmt(" %d", x);
  return s;
}

VH_MODE(D02, 9000, 600000, "one history with its slice quantisers; distinct by the units") {
  Gen g(c.r);
  g.o.wild = c.r.chance(0.3) ? 0.3 : 0.05;
  g.o.max_sps_id = (int)c.r.below(3);
  g.o.max_pps_id = (int)c.r.below(4);
  g.o.budget = 20000;
  // a dependent segment has no delta of its own
  g.o.pin["dependent_slice_segments_enabled_flag"] = 0;
  g.o.pin["scaling_list_enabled_flag"] = c.r.chance(0.1);
  g.o.pin["pps_scaling_list_data_present_flag"] = c.r.chance(0.1);
  g.o.pin["vui_parameters_present_flag"] = c.r.chance(0.2);
  // a value of any size is added up all the same
  auto any = [&] { int64_t v = (int64_t)c.r.logbelow(0x7FFFFFFF); return c.r.chance(0.5) ? -v : v; };
  if (c.r.chance(0.1)) { g.o.pin["slice_qp_delta"] = any(); c.count("histories with unusual deltas"); }
  if (c.r.chance(0.05)) g.o.pin["init_qp_minus26"] = any();
  PState st, st2;
  uint64_t h = 1;
  std::string hist;
  std::vector<std::unique_ptr<H265RtpParser::RtpState>> held;
  std::vector<int64_t> heldqp;   // INT64_MIN: none
  size_t rounds = 1 + (size_t)c.r.below(4);
  for (size_t k = 0; k < rounds; k++) {
    std::vector<Unit> us;
    if (k == 0) { us.push_back(g.make(K_SPS)); us.push_back(g.make(K_PPS)); }
    size_t n = 1 + (size_t)c.r.below(6);
    for (size_t i = 0; i < n; i++) {
      uint64_t x = c.r.below(100);
      Kind kd = x < 55 ? K_SLICE : x < 78 ? K_PPS : x < 86 ? K_SPS : x < 90 ? K_VPS : x < 94 ? K_SEI : x < 96 ? K_AUD : K_OTHER;
      us.push_back(c.r.chance(0.1) ? g.make_broken(kd) : g.make(kd));
    }
    for (auto& u : us) { hist += " " + hex(u.nal, 1500); h = mix(h, hash_bytes(u.nal)); }
    c.note("units" + hist);
    c.eval(h);
    // as a stream
    std::vector<int32_t> want;
    size_t slices = 0;
    bool skip = false;
    for (auto& u : us) {
      int64_t q;
      if (u.slice && !u.broken) slices++;
      if (qp_of(u, &q)) want.push_back((int32_t)q);
      if (u.slice && u.slice->dependent_slice_segment_flag) skip = true;
    }
    Exact e(annexb(c.r, us));
    auto got = H265Utils::GetSliceQpY(e.p, e.n, &st);
    c.count("slice quantisers compared", want.size());
    if (!skip && got != want)
      c.violation("stream quantisers", fmt("round %zu: %s; expected %s; units %s", k, show(got).c_str(), show(want).c_str(), describe(us).c_str()));
    std::string key, d = cmp_state(g, st, &key);
    if (!d.empty()) c.violation("state after the query: " + key, d);
    // as packets, on another state
    size_t i = 0;
    while (i < us.size()) {
      size_t m = 1;
      std::unique_ptr<H265RtpParser::RtpState> rtp;
      const Unit* last = &us[i];
      int how = (int)c.r.below(3);
      std::string what;
      if (how == 1) {
        m = 1 + (size_t)c.r.below(us.size() - i);
        std::vector<Unit> part(us.begin() + (long)i, us.begin() + (long)(i + m));
        bool big = false;
        for (auto& u : part) if (u.nal.size() > 60000) big = true;
        if (big) { how = 0; m = 1; }
        else {
          Exact x(rtp_ap(part));
          rtp = H265RtpParser::ParseRtp(x.p, x.n, &st2);
          last = &us[i + m - 1];
          what = "aggregation";
        }
      }
      if (how == 0 && us[i].nut < 48) {
        Exact x(us[i].nal);
        rtp = H265RtpParser::ParseRtp(x.p, x.n, &st2);
        what = "single";
      } else if (how != 1) {
        if (us[i].nal.size() > 3) {
          Exact x(rtp_fu(us[i], 2, us[i].nal.size(), true, c.r.chance(0.1)));   // a unit that came in one piece
          rtp = H265RtpParser::ParseRtp(x.p, x.n, &st2);
          what = "fragment";
        } else {
          // too short to be fragmented
          Exact x(us[i].nal);
          H265NalUnitParser::ParseNalUnit(x.p, x.n, &st2, opts_from(0));
          i += m;
          continue;
        }
      }
      auto q = H265Utils::GetSliceQpY(rtp, &st2);
      int64_t w;
      bool has = qp_of(*last, &w);
      c.count(std::string("packets, ") + what + (has ? "" : " without a slice"));
      if (!(last->slice && last->slice->dependent_slice_segment_flag)) {
        if (has != (q != nullptr) || (q && *q != w))
          c.violation("packet quantiser, " + what, fmt("%s, expected %s; %s", q ? fmt("%d", *q).c_str() : "none", has ? fmt("%lld", (long long)w).c_str() : "none", describe(us).c_str()));
        held.push_back(std::move(rtp));
        heldqp.push_back(has ? w : INT64_MIN);
      }
      i += m;
    }
    c.maximum("slices in one stream", slices);
  }
  // asked again later, after the sets have moved on
  for (size_t i = 0; i < held.size(); i++) {
    auto q = H265Utils::GetSliceQpY(held[i], &st2);
    if ((q != nullptr) != (heldqp[i] != INT64_MIN) || (q && *q != heldqp[i]))
      c.violation("packet quantiser asked again later", fmt("%s, expected %lld", q ? fmt("%d", *q).c_str() : "none", (long long)heldqp[i]));
    c.count("packets asked again later");
  }
  std::unique_ptr<H265RtpParser::RtpState> none;
  if (H265Utils::GetSliceQpY(none, &st2)) c.violation("quantiser of no packet", "");
  // packets that carry no slice: later fragments, reserved types, empty aggregations
  for (int t = 0; t < 4; t++) {
    Unit u = t == 0 ? g.make(K_SLICE) : g.make_other();
    Bytes p;
    if (t == 0) p = u.nal.size() > 8 ? rtp_fu(u, 4, u.nal.size(), false, true) : rtp_ap({});
    else if (t == 1) p = rtp_ap({});
    else if (t == 2) { p = u.nal; if (p.size() < 3) p.resize(3); p[0] = (uint8_t)((p[0] & 0x81) | ((50 + c.r.below(14)) << 1)); }
    else p = Bytes((size_t)c.r.below(4), (uint8_t)c.r.next());
    c.note("packet", p);
    Exact x(p);
    auto rtp = H265RtpParser::ParseRtp(x.p, x.n, &st2);
    c.count("packets without a slice");
    if (H265Utils::GetSliceQpY(rtp, &st2)) c.violation("quantiser of a packet without a slice", hex(p, 100));
  }
  c.sample(fmt("%zu rounds, %zu packets", rounds, held.size()));
}
}  // namespace vh
