#include "hostile.h"

#include <algorithm>

namespace vh {

Hostile::Hostile(Rng& rng) : r(rng), g(rng) { retune(); }

void Hostile::retune() {
  static const double lv[] = {0, 0.003, 0.02, 0.1, 0.5};
  level = lv[r.below(5)];
  budget = r.chance(0.1) ? 60000 : 8000;
  g.o.wild = r.chance(0.6) ? 0.05 : 0.3;
  g.o.max_vps_id = (int)r.below(2);
  g.o.max_sps_id = (int)r.below(2);
  g.o.max_pps_id = (int)r.below(3);
  g.o.budget = 20000;
  g.o.pin.clear();
  g.o.pin["scaling_list_enabled_flag"] = r.chance(0.15);
  g.o.pin["pps_scaling_list_data_present_flag"] = r.chance(0.15);
}

uint32_t Hostile::arg(uint32_t soft) {
  if (r.chance(0.85)) return (uint32_t)r.below((uint64_t)soft + 1);
  static const uint32_t big[] = {0, 1, 7, 8, 31, 32, 33, 63, 64, 65, 255, 256, 65535, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
  return r.chance(0.7) ? big[r.below(17)] : (uint32_t)r.next() >> r.below(32);
}
uint32_t Hostile::nut() {
  static const uint32_t common[] = {32, 33, 34, 1, 19, 39, 40, 35, 0, 21, 20, 16};
  if (r.chance(0.8)) return common[r.below(12)];
  return (uint32_t)r.below(64);
}
Bytes Hostile::noise() {
  size_t n = (size_t)r.logbelow(r.chance(0.1) ? 3000 : 200);
  Bytes b = r.bytes(n);
  switch (r.below(6)) {
    case 0: break;
    case 1: for (auto& x : b) x |= (uint8_t)r.next(); break;                 // mostly ones: small Exp-Golomb codes
    case 2: for (auto& x : b) x |= (uint8_t)(r.next() | r.next()); break;
    case 3: for (auto& x : b) x &= (uint8_t)r.next(); break;                 // mostly zeros: large codes
    case 4: { uint8_t v = r.chance(0.5) ? 0xff : r.chance(0.5) ? 0 : (uint8_t)r.next(); for (auto& x : b) x = v; break; }
    default: for (auto& x : b) if (r.chance(0.5)) x = (uint8_t)(r.chance(0.5) ? r.below(4) : 0xff); break;
  }
  return b;
}
template <class M> static typename M::mapped_type pick(Rng& r, const M& m) {
  auto it = m.begin();
  std::advance(it, (long)r.below(m.size()));
  return it->second;
}
Bytes Hostile::structure(Struct s, const PState* st) {
  IO io = g.io();
  io.hostile = level;
  io.budget = budget;
  if (r.chance(0.2)) io.wild = 0.9;
  if (r.chance(0.15)) io.budget = (size_t)r.logbelow(budget) + 8;
  bool whole = r.chance(0.9);
  if (force_idx >= 0) { io.force_idx = force_idx; io.force_val = force_val; io.force_stop = true; }
  if (!io.pin.count("vps_video_parameter_set_id")) io.pin["vps_video_parameter_set_id"] = r.chance(0.9) ? r.below(2) : r.below(16);
  io.pin["sps_seq_parameter_set_id"] = r.chance(0.9) ? r.below(2) : r.below(16);
  io.pin["pps_seq_parameter_set_id"] = r.chance(0.9) ? r.below(2) : r.below(16);
  io.pin["pps_pic_parameter_set_id"] = r.chance(0.9) ? r.below(3) : r.chance(0.9) ? r.below(64) : r.next() >> 33;
  if (r.chance(0.02)) io.pin.clear();
  try {
    switch (s) {
      case S_VPS: { Vps x; syn_vps(io, x); break; }
      case S_SPS: { Sps x; syn_sps(io, x); break; }
      case S_PPS: { Pps x; syn_pps(io, x); break; }
      case S_SLICE: {
        std::shared_ptr<Pps> p;
        std::shared_ptr<Sps> q;
        if (st && !st->pps.empty() && r.chance(0.95)) {
          p = pick(r, st->pps);
          for (int i = 0; i < 5 && !st->sps.count(p->pps_seq_parameter_set_id); i++) p = pick(r, st->pps);
          auto it = st->sps.find(p->pps_seq_parameter_set_id);
          if (it != st->sps.end()) q = it->second;
        }
        static const Pps no_pps;
        static const Sps no_sps;
        Slice x;
        syn_slice(io, x, nut(), q ? *q : no_sps, p ? *p : no_pps);
        break;
      }
      case S_SEI: { Sei x; syn_sei(io, x); break; }
      case S_AUD: { Aud x; syn_aud(io, x); break; }
      case S_PINFO: { PInfo x; syn_pinfo(io, x); break; }
      case S_PTL: { Ptl x; syn_ptl(io, x, r.chance(0.7), (uint32_t)r.below(8)); break; }
      case S_SUBHRD: { SubHrd x; syn_sub_hrd(io, x, (uint32_t)r.below(7), (uint32_t)r.below(33), (uint32_t)r.below(2)); break; }
      case S_HRD: { Hrd x; syn_hrd(io, x, (uint32_t)r.below(2), (uint32_t)r.below(8)); break; }
      case S_VUI: { Vui x; syn_vui(io, x, (uint32_t)r.below(8)); break; }
      case S_STRPS: {
        RpsVec v;
        uint32_t n = (uint32_t)r.below(6);
        for (uint32_t i = 0; i <= n; i++) { auto x = std::make_unique<StRps>(); syn_strps(io, *x, i, n, v, 16); v.push_back(std::move(x)); if (r.chance(0.5)) break; }
        break;
      }
      case S_SLD: { Sld x; syn_sld(io, x); break; }
      case S_SPSRANGE: { SpsRange x; syn_sps_range(io, x); break; }
      case S_SPSMULTI: { SpsMulti x; syn_sps_multi(io, x); break; }
      case S_SPS3D: { Sps3d x; syn_sps_3d(io, x); break; }
      case S_SPSSCC: { SpsScc x; syn_sps_scc(io, x, (uint32_t)r.below(4), (uint32_t)r.below(9), (uint32_t)r.below(9)); break; }
      case S_PPSMULTI: { PpsMulti x; syn_pps_multi(io, x); break; }
      case S_PPSSCC: { PpsScc x; syn_pps_scc(io, x); break; }
      case S_PWT: { Pwt x; syn_pwt(io, x, (uint32_t)r.below(4), (uint32_t)r.below(16), (uint32_t)r.below(17)); break; }
      case S_HVCC: return hvcc(st);
      default: break;
    }
  } catch (const StopGen&) {
    whole = whole && r.chance(0.5);
  }
  Bytes b = io.w.b;
  if (pad) {
    static const uint8_t pv[] = {0xff, 0};
    // fill the last byte too, so that the element forced is followed by the padding at once
    for (size_t k = io.w.n; k % 8; k++) if (pad_kind == 0) b.back() = (uint8_t)(b.back() | (0x80 >> (k % 8)));
    if (pad_kind < 2) b.insert(b.end(), pad, pv[pad_kind]);
    else { Bytes x = r.bytes(pad); if (pad_kind == 3) for (auto& y : x) y |= (uint8_t)r.next(); b.insert(b.end(), x.begin(), x.end()); }
    return b;
  }
  if (!whole && !b.empty()) b.resize((size_t)r.below(b.size() + 1));
  if (r.chance(0.3)) { Bytes x = noise(); b.insert(b.end(), x.begin(), x.end()); }
  if (r.chance(0.2)) mutate(r, b, (int)r.below(4));
  return b;
}
Bytes Hostile::payload(uint32_t t, const PState* st) {
  if (r.chance(0.06)) return noise();
  if (r.chance(0.02)) return structure((Struct)r.below(S_HVCC), st);   // something else's contents
  switch (kind_of(t)) {
    case K_VPS: return structure(S_VPS, st);
    case K_SPS: return structure(S_SPS, st);
    case K_PPS: return structure(S_PPS, st);
    case K_SLICE: return structure(S_SLICE, st);
    case K_SEI: return structure(S_SEI, st);
    case K_AUD: return structure(S_AUD, st);
    default: return r.chance(0.3) ? structure((Struct)r.below(6), st) : noise();
  }
}
Bytes Hostile::unit(const PState* st, bool escaped) {
  if (r.chance(0.02)) return noise();
  if (r.chance(0.02)) {   // a unit of a real stream
    auto v = real_window(r, 6, nullptr);
    if (!v.empty()) {
      Bytes b = v[r.below(v.size())];
      if (r.chance(0.5)) mutate(r, b, 1 + (int)r.below(4));
      return escaped ? b : ref_unescape(b);
    }
  }
  if (r.chance(0.25)) {   // a valid unit
    Unit u = g.make((Kind)r.below(7));
    return escaped ? u.nal : u.raw;
  }
  Unit u;
  u.nut = nut();
  u.fzb = r.chance(0.02);
  u.layer = r.chance(0.9) ? 0 : (uint32_t)r.below(64);
  u.tid1 = r.chance(0.9) ? 1 : (uint32_t)r.below(8);
  finish(u, payload(u.nut, st));
  return !escaped || r.chance(0.05) ? u.raw : u.nal;
}
Bytes Hostile::stream(const PState* st, long* width) {
  std::vector<Unit> us;
  size_t n = (size_t)r.below(r.chance(0.1) ? 40 : 9);
  bool lead = r.chance(0.6);
  if (r.chance(0.04)) {
    for (auto& x : real_window(r, n + 1, nullptr)) { Unit u; u.nal = x; us.push_back(u); }
    lead = false;
  } else if (lead) {
    us.push_back(g.make_vps());
    us.push_back(g.make_sps());
    us.push_back(g.make_pps());
  }
  for (size_t i = 0; i < n; i++) {
    if (lead && r.chance(0.2)) { us.push_back(g.make(K_SLICE)); continue; }
    Unit u;
    u.nal = unit(st);
    us.push_back(u);
  }
  Bytes b;
  if (*width < 0) {
    b = annexb(r, us);
    if (r.chance(0.1)) { static const uint8_t z[] = {0, 0, 0, 1, 0, 0, 1}; size_t k = (size_t)r.below(8); b.insert(b.end(), z, z + k); }
  } else if (*width == 0) {
    b = us.empty() ? Bytes() : us[r.below(us.size())].nal;
  } else {
    b = prefixed(us, (size_t)*width);
  }
  if (r.chance(0.3)) mutate(r, b);
  if (r.chance(0.02)) b = noise();
  return b;
}
Bytes Hostile::rtp(const PState* st) {
  Bytes b;
  if (r.chance(0.4)) return unit(st);
  if (r.chance(0.5)) {
    std::vector<Unit> us((size_t)r.below(6));
    for (auto& u : us) { u.nal = unit(st); if (u.nal.size() > 65535) u.nal.resize(65535); }
    b = rtp_ap(us);
  } else {
    Unit u;
    u.nut = nut();
    u.tid1 = 1;
    finish(u, payload(u.nut, st));
    size_t from = 2, to = u.nal.size();
    if (to > 2 && r.chance(0.5)) { from = 2 + (size_t)r.below(to - 2); to = from + (size_t)r.below(to - from + 1); }
    b = rtp_fu(u, from, to, r.chance(0.7), r.chance(0.3));
    if (b.size() > 2 && r.chance(0.15)) b[2] = (uint8_t)((b[2] & 0xc0) | r.below(64));  // any fragmented type
  }
  if (r.chance(0.3)) mutate(r, b, 1 + (int)r.below(4));
  return b;
}
Bytes Hostile::hvcc(const PState* st) {
  std::vector<std::vector<Unit>> arrays((size_t)r.below(5));
  for (auto& a : arrays)
    for (uint64_t k = r.below(4); k; k--) {
      Unit u;
      u.nal = unit(st);
      u.nut = (uint32_t)r.below(64);
      if (u.nal.size() < 65536) a.push_back(u);
    }
  IO io(r);
  io.hostile = r.chance(0.7) ? 0 : 0.02;
  Box box;
  try { syn_hvcc(io, box, arrays); } catch (const StopGen&) {}
  Bytes b = io.w.b;
  if (r.chance(0.3)) mutate(r, b, 1 + (int)r.below(4));
  return b;
}
std::string opt_text(uint32_t bits) {
  static const char* const n[] = {"offset", "length", "parsed", "checksum", "resolution"};
  std::string s;
  for (int i = 0; i < 5; i++) if (bits >> i & 1) s += std::string(s.empty() ? "" : "+") + n[i];
  return s.empty() ? "none" : s;
}
}  // namespace vh
