#include "build.h"

#include <dirent.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>

namespace vh {

const char* const kKindName[] = {"vps", "sps", "pps", "slice", "sei", "aud", "other", "none"};

Kind kind_of(uint32_t t) {
  if (t <= 9 || (t >= 16 && t <= 21)) return K_SLICE;
  switch (t) {
    case 32: return K_VPS;
    case 33: return K_SPS;
    case 34: return K_PPS;
    case 35: return K_AUD;
    case 39: case 40: return K_SEI;
  }
  return K_OTHER;
}

IO Gen::io() const {
  IO x(r);
  x.wild = o.wild;
  x.hostile = o.hostile;
  x.budget = o.budget;
  x.pin = o.pin;
  return x;
}

void Gen::header(Unit& u, uint32_t nut, bool base) {
  u.nut = nut;
  u.kind = kind_of(nut);
  u.layer = base ? 0 : (r.chance(0.7) ? 0 : (uint32_t)r.below(63));
  u.tid1 = 1 + (uint32_t)(r.chance(0.6) ? 0 : r.below(7));
}

void finish(Unit& u, const Bytes& payload) {
  BitW w;
  w.put(u.fzb, 1);
  w.put(u.nut, 6);
  w.put(u.layer, 6);
  w.put(u.tid1, 3);
  u.raw = w.b;
  u.raw.insert(u.raw.end(), payload.begin(), payload.end());
  u.nal = escape(u.raw);
}

static bool is_ext_bit(const Elem& e) { return strstr(e.name, "extension_data_flag") != nullptr; }

static void seal(Unit& u, IO& io) {
  u.tr = io.tr;
  u.need_bits = 0;
  for (auto& e : u.tr) if (!is_ext_bit(e)) u.need_bits = std::max(u.need_bits, e.pos + (size_t)e.nbits);
  u.payload_bits = io.w.n;
}

#define VH_RETRY(body)                                   \
  for (int attempt = 0;; attempt++) {                    \
    IO io = this->io();                                  \
    if (attempt > 20) { io.wild = 0; io.budget = 1u << 22; } \
    try { body } catch (const StopGen&) { continue; }    \
    break;                                               \
  }

Unit Gen::make_vps() {
  Unit u;
  header(u, 32, true);
  VH_RETRY({
    u.vps = std::make_shared<Vps>();
    if (!io.pin.count("vps_video_parameter_set_id")) io.pin["vps_video_parameter_set_id"] = r.chance(0.9) ? r.below(o.max_vps_id + 1) : r.below(16);
    syn_vps(io, *u.vps);
    seal(u, io);
    finish(u, io.w.b);
  })
  enter(u);
  return u;
}
Unit Gen::make_sps() {
  Unit u;
  header(u, 33, true);
  VH_RETRY({
    u.sps = std::make_shared<Sps>();
    if (!io.pin.count("sps_seq_parameter_set_id")) io.pin["sps_seq_parameter_set_id"] = r.chance(0.9) ? r.below(o.max_sps_id + 1) : r.below(16);
    syn_sps(io, *u.sps);
    seal(u, io);
    finish(u, io.w.b);
  })
  enter(u);
  return u;
}
Unit Gen::make_pps(long sps_id) {
  Unit u;
  header(u, 34, true);
  VH_RETRY({
    u.pps = std::make_shared<Pps>();
    if (!io.pin.count("pps_pic_parameter_set_id")) io.pin["pps_pic_parameter_set_id"] = r.chance(0.9) ? r.below(o.max_pps_id + 1) : r.below(64);
    if (!io.pin.count("pps_seq_parameter_set_id")) {
      int64_t id = r.chance(0.95) ? r.below(o.max_sps_id + 1) : r.below(16);
      if (sps_id >= 0) id = sps_id;
      else if (!sps.empty() && r.chance(0.9)) { auto it = sps.begin(); std::advance(it, r.below(sps.size())); id = it->first; }
      io.pin["pps_seq_parameter_set_id"] = id;
    }
    syn_pps(io, *u.pps);
    seal(u, io);
    finish(u, io.w.b);
  })
  enter(u);
  return u;
}
bool Gen::has_chain() const {
  for (auto& p : pps) if (sps.count(p.second->pps_seq_parameter_set_id)) return true;
  return false;
}
Unit Gen::make_slice(long nut) {
  Unit u;
  static const uint32_t types[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 18, 19, 20, 21};
  header(u, nut >= 0 ? (uint32_t)nut : types[r.below(16)], false);
  // candidates: sets in force, complete chains preferred
  std::vector<uint32_t> good, bad;
  for (auto& p : pps) (sps.count(p.second->pps_seq_parameter_set_id) ? good : bad).push_back(p.first);
  std::shared_ptr<Pps> pp;
  std::shared_ptr<Sps> sp;
  std::vector<Unit> keep;  // throw-away sets used to write a slice that cannot be decoded
  if (!good.empty() && (r.chance(0.95) || bad.empty())) {
    pp = pps[good[r.below(good.size())]];
    sp = sps[pp->pps_seq_parameter_set_id];
  } else {
    u.broken = true;
    u.why = bad.empty() ? "no picture parameter set with this id" : "no sequence parameter set for this slice";
    Gen g(r);
    g.o = o;
    g.o.pin.clear();
    keep.push_back(g.make_sps());
    if (bad.empty()) {
      uint32_t id = (uint32_t)r.below(64);
      while (pps.count(id)) id = (id + 1) % 64;
      g.o.pin["pps_pic_parameter_set_id"] = id;
      keep.push_back(g.make_pps());
      pp = keep[1].pps;
    } else {
      pp = pps[bad[r.below(bad.size())]];
    }
    sp = keep[0].sps;
  }
  for (int attempt = 0;; attempt++) {
    IO io = this->io();
    if (attempt > 20) io.pin["slice_type"] = 2;  // intra slices avoid the unsupported list modification syntax
    if (attempt > 60) { io.wild = 0; io.budget = 1u << 22; }
    try {
      u.slice = std::make_shared<Slice>();
      syn_slice(io, *u.slice, u.nut, *sp, *pp);
      seal(u, io);
      Bytes p = io.w.b;
      if (r.chance(o.data)) {
        Bytes d = r.bytes(r.logbelow(60));
        for (auto& x : d) if (r.chance(0.3)) x = (uint8_t)r.below(4);
        p.insert(p.end(), d.begin(), d.end());
        p.push_back(0x80);
      }
      finish(u, p);
    } catch (const StopGen&) {
      continue;
    }
    break;
  }
  u.spps = pp;
  u.ssps = sp;
  if (u.broken) u.slice = nullptr;
  return u;
}
Unit Gen::make_sei() {
  Unit u;
  header(u, r.chance(0.6) ? 39 : 40, false);
  VH_RETRY({
    u.sei = std::make_shared<Sei>();
    syn_sei(io, *u.sei);
    seal(u, io);
    finish(u, io.w.b);
  })
  return u;
}
Unit Gen::make_aud() {
  Unit u;
  header(u, 35, false);
  IO io = this->io();
  u.aud = std::make_shared<Aud>();
  syn_aud(io, *u.aud);
  seal(u, io);
  finish(u, io.w.b);
  return u;
}
Unit Gen::make_other(bool rtp) {
  Unit u;
  uint32_t t;
  do {
    t = (uint32_t)r.below(64);
  } while (kind_of(t) != K_OTHER || (!rtp && t >= 48));
  header(u, t, false);
  Bytes b = r.bytes(r.logbelow(40));
  for (auto& x : b) if (r.chance(0.3)) x = (uint8_t)r.below(4);
  b.push_back((uint8_t)(1 + r.below(255)));
  finish(u, b);
  return u;
}
Unit Gen::make_broken(Kind k) {
  Gen g(r);
  g.o = o;
  g.vps = vps;
  g.sps = sps;
  g.pps = pps;
  for (int attempt = 0; attempt < 50; attempt++) {
    g.vps = vps; g.sps = sps; g.pps = pps;
    if (k == K_SLICE && !has_chain()) return g.make_slice();
    Unit u = g.make(k);
    if (u.kind == K_OTHER || u.broken) return u;
    if (u.kind == K_SEI) return u;   // a damaged message is still reported as a message
    if (u.need_bits == 0) continue;
    bool cut = true;
    if (r.chance(0.5)) {
      // out-of-range value of an enforced element, written at its place
      std::vector<size_t> c;
      for (size_t i = 0; i < u.tr.size(); i++) {
        const Elem& e = u.tr[i];
        if (e.enforced && e.kind == 'e') c.push_back(i);
      }
      if (!c.empty()) {
        const Elem& e = u.tr[c[r.below(c.size())]];
        int64_t v = e.hi + 1 + (int64_t)(r.chance(0.5) ? 0 : r.logbelow(100000));
        Bytes pay(u.raw.begin() + 2, u.raw.end());
        BitR rd(pay);
        BitW w;
        while (rd.p < e.pos) w.bit(rd.bit());
        w.ue((uint64_t)v);
        rd.p = e.pos + (size_t)e.nbits;
        while (rd.left()) w.bit(rd.bit());
        while (w.n % 8) w.bit(1);
        w.put(0x80, 8);
        u.why = fmt("%s=%lld", e.path.c_str(), (long long)v);
        finish(u, w.b);
        cut = false;
      }
    }
    if (cut) {
      size_t max = (u.need_bits - 1) / 8;
      size_t keep = r.chance(0.5) ? (max ? max - (size_t)r.logbelow(max) : 0) : (size_t)r.below(max + 1);
      Bytes pay(u.raw.begin() + 2, u.raw.begin() + 2 + (long)keep);
      while (!pay.empty() && pay.back() == 0) pay.pop_back();
      u.why = fmt("cut to %zu of %zu payload bytes", pay.size(), u.raw.size() - 2);
      finish(u, pay);
    }
    u.broken = true;
    u.vps = nullptr; u.sps = nullptr; u.pps = nullptr; u.slice = nullptr; u.aud = nullptr;
    return u;
  }
  return make_other();
}
bool Gen::twin(const Unit& from, Unit* out) {
  Bytes pl(from.raw.begin() + 2, from.raw.end());
  for (int attempt = 0; attempt < 12; attempt++) {
    if (from.tr.empty()) return false;
    const Elem& e = from.tr[r.below(from.tr.size())];
    if (e.kind == 'f' || e.hi <= e.lo || e.path.find("_set_id") != std::string::npos || e.pos + (size_t)e.nbits > from.payload_bits) continue;
    int64_t v = r.chance(0.5) ? e.val + (r.chance(0.5) ? 1 : -1) : r.range(e.lo, e.hi);
    if (v < e.lo || v > e.hi || v == e.val) continue;
    BitW w;
    BitR rd(pl);
    for (size_t i = 0; i < e.pos; i++) w.bit(rd.bit());
    if (e.kind == 'e') w.ue((uint64_t)v); else if (e.kind == 's') w.se(v); else w.put((uint64_t)v, e.nbits);
    rd.p = e.pos + (size_t)e.nbits;
    while (rd.p < from.payload_bits) w.bit(rd.bit());
    w.trailing();
    auto none = [](uint32_t, bool* known) { *known = false; return nullptr; };
    Ref d = ref_decode(r, from.nut, w.b, none, none);
    if (d.v != IO::D_VALID) continue;
    Unit u = d.u;
    u.layer = from.layer;
    u.tid1 = from.tid1;
    u.tr = d.tr;
    for (auto& x : u.tr) if (!is_ext_bit(x)) u.need_bits = std::max(u.need_bits, x.pos + (size_t)x.nbits);
    u.payload_bits = d.end;
    finish(u, w.b);
    *out = u;
    enter(u);
    twins++;
    return true;
  }
  return false;
}
Unit Gen::make(Kind k) {
  if (o.twin > 0 && !recent.empty() && k <= K_PPS && r.chance(o.twin)) {
    std::vector<const Unit*> v;
    for (auto& x : recent) if (x.second.kind == k) v.push_back(&x.second);
    Unit u;
    if (!v.empty()) { Unit from = *v[r.below(v.size())]; if (twin(from, &u)) return u; }
  }
  switch (k) {
    case K_VPS: return make_vps();
    case K_SPS: return make_sps();
    case K_PPS: return make_pps();
    case K_SLICE: return make_slice();
    case K_SEI: return make_sei();
    case K_AUD: return make_aud();
    default: return make_other();
  }
}
void Gen::enter(const Unit& u) {
  if (u.broken) return;
  if (u.vps) vps[u.vps->vps_video_parameter_set_id] = u.vps;
  if (u.sps) sps[u.sps->sps_seq_parameter_set_id] = u.sps;
  if (u.pps) pps[u.pps->pps_pic_parameter_set_id] = u.pps;
  if (o.twin > 0 && (u.vps || u.sps || u.pps) && u.tr.size() < 3000)
    recent[(uint64_t)u.kind << 32 | (u.vps ? u.vps->vps_video_parameter_set_id : u.sps ? u.sps->sps_seq_parameter_set_id : u.pps->pps_pic_parameter_set_id)] = u;
}
// ---- streams of real encoders, as shipped with the repository
const std::vector<RealFile>& real_files() {
  static std::vector<RealFile> v;
  static bool done = false;
  if (done) return v;
  done = true;
  const char* repo = getenv("VH_REPO");
  std::string base = repo && *repo ? repo : "/repo";
  for (const char* sub : {"/media", "/video"}) {
    std::vector<std::string> names;
    if (DIR* d = opendir((base + sub).c_str())) {
      while (dirent* e = readdir(d)) names.push_back(e->d_name);
      closedir(d);
    }
    std::sort(names.begin(), names.end());
    for (auto& n : names) {
      if (n.size() < 4 || n.compare(n.size() - 4, 4, ".265")) continue;
      FILE* f = fopen((base + sub + "/" + n).c_str(), "rb");
      if (!f) continue;
      Bytes b(4 << 20);
      b.resize(fread(b.data(), 1, b.size(), f));
      fclose(f);
      RealFile rf;
      rf.name = n;
      size_t at = SIZE_MAX;
      auto add = [&](size_t end) {
        if (at == SIZE_MAX) return;
        while (end > at && b[end - 1] == 0) end--;   // zero_byte, trailing_zero_8bits
        size_t len = end - at;
        uint32_t nut = len ? (b[at] >> 1) & 63 : 63;
        if (kind_of(nut) == K_SLICE) len = std::min<size_t>(len, 1500);   // the data of a slice is not decoded
        if (len >= 2) rf.nals.push_back(Bytes(b.begin() + (long)at, b.begin() + (long)(at + len)));
      };
      for (size_t i = 0; i + 2 < b.size();) {
        if (b[i] == 0 && b[i + 1] == 0 && b[i + 2] == 1) { add(i); at = i + 3; i += 3; } else i++;
      }
      add(b.size());
      if (!rf.nals.empty()) v.push_back(rf);
    }
  }
  return v;
}

// ---- reference decoding
Ref ref_decode(Rng& r, uint32_t nut, const Bytes& pl, const SetOf<Pps>& pps, const SetOf<Sps>& sps) {
  Ref o;
  o.u.nut = nut;
  o.u.kind = kind_of(nut);
  IO io(r);
  io.dec = &pl;
  io.budget = 1u << 24;
  std::function<void()> run;
  switch (o.u.kind) {
    case K_VPS: o.u.vps = std::make_shared<Vps>(); run = [&] { syn_vps(io, *o.u.vps); }; break;
    case K_SPS: o.u.sps = std::make_shared<Sps>(); run = [&] { syn_sps(io, *o.u.sps); }; break;
    case K_PPS: o.u.pps = std::make_shared<Pps>(); run = [&] { syn_pps(io, *o.u.pps); }; break;
    case K_SEI: o.u.sei = std::make_shared<Sei>(); run = [&] { syn_sei(io, *o.u.sei); }; break;
    case K_AUD: o.u.aud = std::make_shared<Aud>(); run = [&] { syn_aud(io, *o.u.aud); }; break;
    case K_SLICE: {
      o.u.slice = std::make_shared<Slice>();
      run = [&] {
        // the sets the header names
        IO h(r);
        h.dec = &pl;
        uint32_t x = 0, id = 0;
        try {
          h.flag("first_slice_segment_in_pic_flag", x);
          if (nut >= 16 && nut <= 23) h.flag("no_output_of_prior_pics_flag", x);
          h.ue("slice_pic_parameter_set_id", id, 0, 63);
        } catch (const StopGen&) { io.stop(h.verdict, h.why); }
        if (h.verdict != IO::D_VALID) io.stop(IO::D_UNKNOWN, "set identifier");
        bool known;
        auto p = pps(id, &known);
        if (!known) io.stop(IO::D_UNKNOWN, "picture parameter set not judged");
        if (!p) io.stop(IO::D_ENFORCED, "no picture parameter set");
        auto s = sps(p->pps_seq_parameter_set_id, &known);
        if (!known) io.stop(IO::D_UNKNOWN, "sequence parameter set not judged");
        if (!s) io.stop(IO::D_ENFORCED, "no sequence parameter set");
        o.u.spps = p;
        o.u.ssps = s;
        syn_slice(io, *o.u.slice, nut, *s, *p);
      };
      break;
    }
    default: o.why = "kind"; return o;
  }
  bool full = true;
  try { run(); } catch (const StopGen&) { full = false; }
  o.v = !full && io.verdict == IO::D_VALID ? IO::D_UNKNOWN : io.verdict;
  o.why = io.why;
  o.tr = io.tr;
  o.end = std::min(io.w.n, pl.size() * 8);
  // what was read must be what is there
  if (full) {
    BitR a(io.w.b), b(pl);
    for (size_t i = 0; i < o.end; i++) if (a.bit() != b.bit()) { fprintf(stderr, "reference decoder out of step\n"); abort(); }
  }
  return o;
}

std::vector<Bytes> real_window(Rng& r, size_t max, std::string* name) {
  std::vector<Bytes> v;
  auto& all = real_files();
  if (all.empty()) return v;
  auto& f = all[r.below(all.size())];
  if (name) *name = f.name;
  size_t lead = 0;
  while (lead < f.nals.size() && kind_of((f.nals[lead][0] >> 1) & 63) != K_SLICE) lead++;
  size_t first = lead > 12 ? r.below(lead - 12) : 0;   // one of the files has hundreds of broken sets
  for (size_t i = first; i < lead && i < first + 12; i++) v.push_back(f.nals[i]);
  size_t n = 1 + r.below(max), at = lead + r.below(std::max<size_t>(1, f.nals.size() - lead));
  for (size_t i = at; i < f.nals.size() && i < at + n; i++) v.push_back(f.nals[i]);
  return v;
}
std::vector<Unit> Gen::real(size_t max) {
  std::vector<Unit> us;
  for (auto& nal : real_window(r, max, nullptr)) {
    Bytes raw = ref_unescape(nal);
    uint32_t nut = (nal[0] >> 1) & 63;
    Bytes pl(raw.begin() + 2, raw.end());
    auto get = [](auto& m, uint32_t id, bool* known) { *known = true; auto it = m.find(id); return it == m.end() ? nullptr : it->second; };
    Ref d = ref_decode(r, nut, pl, [&](uint32_t id, bool* k) { return get(pps, id, k); }, [&](uint32_t id, bool* k) { return get(sps, id, k); });
    if (d.v != IO::D_VALID) continue;
    Unit u = d.u;
    u.fzb = nal[0] >> 7;
    u.layer = (uint32_t)((nal[0] & 1) << 5 | nal[1] >> 3);
    u.tid1 = nal[1] & 7;
    u.raw = raw;
    u.nal = nal;
    if (escape(raw) != nal || u.fzb || u.layer || !u.tid1) continue;
    u.tr = d.tr;
    for (auto& e : u.tr) if (!is_ext_bit(e)) u.need_bits = std::max(u.need_bits, e.pos + (size_t)e.nbits);
    u.payload_bits = d.end;
    enter(u);
    us.push_back(u);
  }
  return us;
}
std::vector<Unit> Gen::stream(size_t n, double broken, bool rtp_safe) {
  std::vector<Unit> us;
  if (r.chance(0.08)) {
    us = real(n);
    n += us.size() > n ? us.size() - n : 0;
    n += r.below(3);
  }
  bool lead = us.empty() && r.chance(0.85);
  for (size_t i = 0; us.size() < n; i++) {
    Kind k;
    if (lead && i == 0) k = K_VPS;
    else if (lead && i == 1) k = K_SPS;
    else if (lead && i == 2) k = K_PPS;
    else {
      uint64_t x = r.below(100);
      k = x < 45 ? K_SLICE : x < 52 ? K_VPS : x < 62 ? K_SPS : x < 75 ? K_PPS : x < 85 ? K_SEI : x < 92 ? K_AUD : K_OTHER;
    }
    if (r.chance(broken)) us.push_back(make_broken(k));
    else if (k == K_OTHER) us.push_back(make_other(!rtp_safe));
    else us.push_back(make(k));
    if (rtp_safe && us.back().nut >= 48) us.pop_back();
  }
  return us;
}

Bytes annexb(Rng& r, const std::vector<Unit>& us, std::vector<size_t>* offs, bool junk) {
  Bytes b;
  if (junk && r.chance(0.2)) for (uint64_t k = r.below(5); k; k--) b.push_back((uint8_t)(2 + r.below(250)));
  for (auto& u : us) {
    if (r.chance(0.5)) b.push_back(0);
    b.push_back(0);
    b.push_back(0);
    b.push_back(1);
    if (offs) offs->push_back(b.size());
    b.insert(b.end(), u.nal.begin(), u.nal.end());
  }
  return b;
}
Bytes prefixed(const std::vector<Unit>& us, size_t width, std::vector<size_t>* offs) {
  Bytes b;
  for (auto& u : us) {
    for (size_t i = 0; i < width; i++) {
      size_t sh = 8 * (width - 1 - i);
      b.push_back(sh >= 64 ? 0 : (uint8_t)(u.nal.size() >> sh));
    }
    if (offs) offs->push_back(b.size());
    b.insert(b.end(), u.nal.begin(), u.nal.end());
  }
  return b;
}
void syn_hvcc(IO& io, Box& s, const std::vector<std::vector<Unit>>& arrays) {
  io.E().u("configurationVersion", s.configurationVersion, 8, 1, 1);
  io.u("general_profile_space", s.general_profile_space, 2);
  io.u("general_tier_flag", s.general_tier_flag, 1);
  io.u("general_profile_idc", s.general_profile_idc, 5);
  for (size_t j = 0; j < 32; j++) io.flagv("general_profile_compatibility_flags", s.general_profile_compatibility_flags, j);
  io.u("general_constraint_indicator_flags", s.general_constraint_indicator_flags, 48);
  io.u("general_level_idc", s.general_level_idc, 8);
  io.E().u("reserved1", s.reserved1, 4, 15, 15);
  io.u("min_spatial_segmentation_idc", s.min_spatial_segmentation_idc, 12);
  io.E().u("reserved2", s.reserved2, 6, 63, 63);
  io.u("parallelismType", s.parallelismType, 2);
  io.E().u("reserved3", s.reserved3, 6, 63, 63);
  io.u("chroma_format_idc", s.chroma_format_idc, 2);
  io.E().u("reserved4", s.reserved4, 5, 31, 31);
  io.u("bit_depth_luma_minus8", s.bit_depth_luma_minus8, 3);
  io.E().u("reserved5", s.reserved5, 5, 31, 31);
  io.u("bit_depth_chroma_minus8", s.bit_depth_chroma_minus8, 3);
  io.u("avgFrameRate", s.avgFrameRate, 16);
  io.u("constantFrameRate", s.constantFrameRate, 2);
  io.u("numTemporalLayers", s.numTemporalLayers, 3);
  io.u("temporalIdNested", s.temporalIdNested, 1);
  io.u("lengthSizeMinusOne", s.lengthSizeMinusOne, 2);
  int64_t n = (int64_t)arrays.size();
  io.u("numOfArrays", s.numOfArrays, 8, n, n);
  for (size_t j = 0; j < arrays.size(); j++) {
    io.flagv("array_completeness", s.array_completeness, j);
    io.E().uv("reserved6", s.reserved6, j, 1, 0, 0);
    int64_t t = arrays[j].empty() ? 33 : arrays[j][0].nut, k = (int64_t)arrays[j].size();
    if (io.gen() && io.r->chance(0.1)) t = (int64_t)io.r->below(64);   // the declared type does not steer parsing
    io.uv("NAL_unit_type", s.NAL_unit_type, j, 6, io.gen() ? t : 0, io.gen() ? t : 63);
    io.uv("numNalus", s.numNalus, j, 16, k, k);
    if (!io.at("nalUnitLength", s.nalUnitLength, j)) continue;
    for (size_t i = 0; i < arrays[j].size(); i++) {
      int64_t len = (int64_t)arrays[j][i].nal.size();
      io.uv(fmt("nalUnitLength[%zu]", j).c_str(), s.nalUnitLength[j], i, 16, len, len);
      if (io.gen()) io.w.append(arrays[j][i].nal);
    }
    io.size("nalUnitLength[j]", s.nalUnitLength[j]);
  }
  io.size("array_completeness", s.array_completeness);
  io.size("reserved6", s.reserved6);
  io.size("NAL_unit_type", s.NAL_unit_type);
  io.size("numNalus", s.numNalus);
  io.size("nalUnitLength", s.nalUnitLength);
}
Bytes rtp_ap(const std::vector<Unit>& us) {
  // the header carries the lowest layer and temporal id of the units
  uint32_t layer = 63, tid = 7, f = 0;
  for (auto& u : us) { layer = std::min(layer, u.layer); tid = std::min(tid, u.tid1); f |= u.fzb; }
  if (us.empty()) { layer = 0; tid = 1; }
  BitW w;
  w.put(f, 1);
  w.put(48, 6);
  w.put(layer, 6);
  w.put(tid, 3);
  for (auto& u : us) {
    w.put(u.nal.size(), 16);
    w.append(u.nal);
  }
  return w.b;
}

Bytes rtp_fu(const Unit& u, size_t from, size_t to, bool start, bool end) {
  BitW w;
  w.put(u.fzb, 1);
  w.put(49, 6);
  w.put(u.layer, 6);
  w.put(u.tid1, 3);
  w.put(start, 1);
  w.put(end, 1);
  w.put(u.nut, 6);
  w.append(Bytes(u.nal.begin() + (long)from, u.nal.begin() + (long)to));
  return w.b;
}

// ---------------------------------------------------------------- comparisons
static std::string pre(const char* p, std::string d, std::string* key) {
  if (!d.empty() && key) *key = std::string(p) + "." + *key;
  return d.empty() ? d : std::string(p) + ": " + d;
}
std::string cmp_vps(const Vps& a, const Vps& b, std::string* k) { return compare(a, b, [](IO& io, Vps& s) { syn_vps(io, s); }, k); }
std::string cmp_sps(const Sps& a, const Sps& b, std::string* k) { return compare(a, b, [](IO& io, Sps& s) { syn_sps(io, s); }, k); }
std::string cmp_pps(const Pps& a, const Pps& b, std::string* k) { return compare(a, b, [](IO& io, Pps& s) { syn_pps(io, s); }, k); }
std::string cmp_slice(const Slice& a, const Slice& b, const Sps& sps, const Pps& pps, std::string* k) {
  return compare(a, b, [&](IO& io, Slice& s) { syn_slice(io, s, a.nal_unit_type, sps, pps); }, k);
}
std::string cmp_sei(const Sei& a, const Sei& b, std::string* k) { return compare(a, b, [](IO& io, Sei& s) { syn_sei(io, s); }, k); }

std::string cmp_header(const Unit& u, const NalHeader* h, std::string* key) {
  if (!h) { if (key) *key = "header missing"; return "no unit header"; }
  IO a, b;
  a.emit("forbidden_zero_bit", u.fzb); b.emit("forbidden_zero_bit", h->forbidden_zero_bit);
  a.emit("nal_unit_type", u.nut); b.emit("nal_unit_type", h->nal_unit_type);
  a.emit("nuh_layer_id", u.layer); b.emit("nuh_layer_id", h->nuh_layer_id);
  a.emit("nuh_temporal_id_plus1", u.tid1); b.emit("nuh_temporal_id_plus1", h->nuh_temporal_id_plus1);
  return diff(a.flat, b.flat, key);
}
std::string cmp_payload(const Unit& u, const NalPayload* p, std::string* key) {
  if (!p) { if (key) *key = "payload missing"; return "no payload object"; }
  // exactly the structure selected by the type, and only if it could be parsed
  struct { const char* n; bool want, got; } pres[] = {
      {"vps", u.vps != nullptr, p->vps != nullptr},       {"sps", u.sps != nullptr, p->sps != nullptr},
      {"pps", u.pps != nullptr, p->pps != nullptr},       {"slice", u.slice != nullptr, p->slice_segment_layer != nullptr},
      {"sei", u.sei != nullptr, p->sei != nullptr},       {"aud", u.aud != nullptr, p->aud != nullptr}};
  for (auto& x : pres) {
    if (x.want == x.got) continue;
    if (key) *key = std::string(x.n) + (x.want ? " not accepted" : " unexpected");
    return fmt("%s %s (type %u%s%s)", x.n, x.want ? "expected but not reported" : "reported but not expected", u.nut,
               u.broken ? ", broken: " : "", u.why.c_str());
  }
  if (u.vps) return pre("vps", cmp_vps(*u.vps, *p->vps, key), key);
  if (u.sps) return pre("sps", cmp_sps(*u.sps, *p->sps, key), key);
  if (u.pps) return pre("pps", cmp_pps(*u.pps, *p->pps, key), key);
  if (u.sei) return pre("sei", cmp_sei(*u.sei, *p->sei, key), key);
  if (u.aud) {
    if (u.aud->pic_type == p->aud->pic_type) return "";
    if (key) *key = "aud.pic_type";
    return fmt("aud.pic_type expected %u got %u", u.aud->pic_type, p->aud->pic_type);
  }
  if (u.slice) {
    auto* l = p->slice_segment_layer.get();
    if (!l->slice_segment_header) { if (key) *key = "slice header missing"; return "slice without header"; }
    if (l->nal_unit_type != u.nut) { if (key) *key = "slice layer type"; return fmt("slice layer type %u expected %u", l->nal_unit_type, u.nut); }
    return pre("slice", cmp_slice(*u.slice, *l->slice_segment_header, *u.ssps, *u.spps, key), key);
  }
  return "";
}
std::string cmp_unit(const Unit& u, const Nal* n, std::string* key) {
  if (!n) { if (key) *key = "unit missing"; return "no unit"; }
  std::string d = cmp_header(u, n->nal_unit_header.get(), key);
  if (!d.empty()) return d;
  return cmp_payload(u, n->nal_unit_payload.get(), key);
}
template <class M, class F> static std::string cmp_map(const char* n, const M& want, const M& got, F f, std::string* key) {
  for (auto& kv : want) {
    auto it = got.find(kv.first);
    if (it == got.end() || !it->second) { if (key) *key = std::string(n) + " lost"; return fmt("%s %u missing from the parser state", n, kv.first); }
    std::string k2, d = f(*kv.second, *it->second, &k2);
    if (!d.empty()) { if (key) *key = std::string(n) + "." + k2; return fmt("%s %u in the parser state: %s", n, kv.first, d.c_str()); }
  }
  for (auto& kv : got)
    if (!want.count(kv.first) && kv.second) { if (key) *key = std::string(n) + " extra"; return fmt("%s %u in the parser state was never parsed", n, kv.first); }
  return "";
}
std::string cmp_state(const Gen& g, const PState& s, std::string* key) {
  std::string d = cmp_map("state vps", g.vps, s.vps, cmp_vps, key);
  if (d.empty()) d = cmp_map("state sps", g.sps, s.sps, cmp_sps, key);
  if (d.empty()) d = cmp_map("state pps", g.pps, s.pps, cmp_pps, key);
  return d;
}

// ---------------------------------------------------------------- dumps
#ifdef FDUMP_DEFINE
std::string dump(const Stream& s, int indent) { return capture([&](FILE* f) { s.fdump(f, indent); }); }
std::string dump(const Nal& s, ParsingOptions o, int indent) { return capture([&](FILE* f) { s.fdump(f, indent, o); }); }
std::string dump(const NalPayload& p, uint32_t nut, ParsingOptions o, int indent) {
  return capture([&](FILE* f) { p.fdump(f, indent, nut, o); });
}
std::string dump_state(const PState& s) {
  return capture([&](FILE* f) {
    ParsingOptions o;
    for (auto& x : s.vps) { fprintf(f, "\n%u ", x.first); if (x.second) x.second->fdump(f, -1); }
    for (auto& x : s.sps) { fprintf(f, "\n%u ", x.first); if (x.second) x.second->fdump(f, -1, o); }
    for (auto& x : s.pps) { fprintf(f, "\n%u ", x.first); if (x.second) x.second->fdump(f, -1); }
  });
}
#else   // a library without dumps
std::string dump(const Stream&, int) { return ""; }
std::string dump(const Nal&, ParsingOptions, int) { return ""; }
std::string dump(const NalPayload&, uint32_t, ParsingOptions, int) { return ""; }
std::string dump_state(const PState&) { return ""; }
#endif
std::unique_ptr<PState> clone_refs(const PState& s) {
  auto p = std::make_unique<PState>();
  p->vps = s.vps;
  p->sps = s.sps;
  p->pps = s.pps;
  return p;
}
ParsingOptions opts_from(uint32_t b) {
  ParsingOptions o;
  o.add_offset = b & 1;
  o.add_length = b & 2;
  o.add_parsed_length = b & 4;
  o.add_checksum = b & 8;
  o.add_resolution = b & 16;
  return o;
}

Exact::Exact(const Bytes& b) : Exact(b.data(), b.size()) {}
Exact::Exact(const uint8_t* d, size_t len) : p(new uint8_t[len]), n(len) { if (len) memcpy(p, d, len); }
Exact::~Exact() { delete[] p; }

void inflate(Rng& r, Unit& u, size_t more) {
  bool ext = u.kind == K_VPS && u.vps && u.vps->vps_extension_flag;
  if (u.broken || (u.kind != K_SLICE && u.kind != K_OTHER && !ext)) return;
  Bytes pay(u.raw.begin() + 2, u.raw.end());
  if (pay.empty()) pay.push_back(0x80);
  Bytes d = r.bytes(more);
  for (auto& x : d) if (x < 40) x &= 3;
  pay.insert(pay.end(), d.begin(), d.end());
  pay.push_back(0x80);
  // everything up to the stop bit is extension data, the last of which is kept
  if (ext && !d.empty()) u.vps->vps_extension_data_flag = d.back() & 1;
  finish(u, pay);
}

Sparse::Sparse(size_t size, const Bytes& tail) : n(size) {
  size_t page = 4096, body = (size + page - 1) / page * page;
  len_ = body + page;
  void* m = mmap(nullptr, len_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) { fprintf(stderr, "mmap of %zu bytes failed\n", len_); _exit(3); }
  map_ = (uint8_t*)m;
  mprotect(map_ + body, page, PROT_NONE);
  p = map_ + (body - size);
  put(size - tail.size(), tail);
}
Sparse::~Sparse() { munmap(map_, len_); }
void Sparse::put(size_t at, const Bytes& b) { if (!b.empty()) memcpy(p + at, b.data(), b.size()); }
size_t wrap_size(Rng& r, size_t max) {
  static const size_t at[] = {256 / 8, 256, 65536 / 8, 65536, (size_t)1 << 24, (size_t)1 << 28, (size_t)1 << 29, (size_t)1 << 31, (size_t)1 << 32};
  size_t k = 0;
  do { k = at[r.below(sizeof at / sizeof *at)]; } while (k > max && k > at[0]);
  k = std::min(k, max);
  return k - std::min<size_t>(k, r.below(12)) + r.below(12);
}

void mutate(Rng& r, Bytes& b, int times) {
  if (times < 0) times = 1 + (int)r.logbelow(12);
  for (int i = 0; i < times; i++) {
    size_t n = b.size();
    size_t p = n ? (size_t)r.below(n) : 0;
    switch (r.below(9)) {
      case 0: if (n) b[p] = (uint8_t)(b[p] ^ (1 << r.below(8))); break;
      case 1: if (n) b[p] = (uint8_t)r.next(); break;
      case 2: if (n) b.erase(b.begin() + (long)p, b.begin() + (long)(p + 1 + r.below(std::min<size_t>(n - p, 8)))); break;
      case 3: { Bytes x = r.bytes(1 + r.below(8)); b.insert(b.begin() + (long)p, x.begin(), x.end()); break; }
      case 4: b.resize(p); break;
      case 5: if (n) { size_t k = 1 + r.below(std::min<size_t>(n - p, 16)); uint8_t v = r.chance(0.5) ? 0 : 0xff; for (size_t j = 0; j < k; j++) b[p + j] = v; } break;
      case 6: if (n) { size_t q = r.below(n), k = 1 + r.below(std::min<size_t>(n - q, 32)); Bytes x(b.begin() + (long)q, b.begin() + (long)(q + k)); b.insert(b.begin() + (long)p, x.begin(), x.end()); } break;
      case 7: { static const uint8_t sc[] = {0, 0, 1}; b.insert(b.begin() + (long)p, sc, sc + 3); break; }
      case 8: if (n) b[p] = (uint8_t)(b[p] + (r.chance(0.5) ? 1 : 255)); break;
    }
    if (b.size() > 60000) b.resize(60000);
  }
}
std::string describe(const std::vector<Unit>& us) {
  std::string s;
  for (auto& u : us) {
    if (!s.empty()) s += ' ';
    s += u.kind == K_OTHER ? fmt("nut%u", u.nut) : kKindName[u.kind];
    if (u.kind == K_SLICE) s += std::to_string(u.nut);
    if (u.broken) s += "!";
  }
  return s;
}
uint64_t shape_hash(const std::vector<Elem>& tr) {
  std::map<std::string, int> n;
  for (auto& e : tr) n[strip_idx(e.path)]++;
  uint64_t h = 7;
  for (auto& kv : n) {
    int b = 0;
    for (int v = kv.second; v; v >>= 1) b++;
    h = mix(h, hash_str(kv.first) + (uint64_t)b);
  }
  return h;
}
}  // namespace vh
