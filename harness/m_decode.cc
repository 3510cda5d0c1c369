// V14: what is reported is what the bits say.  The syntax descriptions are run as a reference decoder over streams of
// real encoders and over units whose coded values were changed bit by bit.
#include <string.h>

#include <algorithm>
#include <memory>

#include "build.h"

namespace vh {

// The sets in force: what the reference decoded, and the library's object it was compared with.
template <class T> struct Slot { std::shared_ptr<T> want; std::shared_ptr<T> lib; };
struct World {
  std::map<uint32_t, Slot<Sps>> sps;
  std::map<uint32_t, Slot<Pps>> pps;
  std::map<uint32_t, Slot<Vps>> vps;
  PState st;
};
template <class T> static std::shared_ptr<T> in_force(const std::map<uint32_t, Slot<T>>& m, const std::map<uint32_t, std::shared_ptr<T>>& lib, uint32_t id, bool* known) {
  auto l = lib.find(id);
  auto w = m.find(id);
  *known = true;
  if (l == lib.end() || !l->second) return nullptr;
  if (w == m.end() || w->second.lib != l->second || !w->second.want) { *known = false; return nullptr; }
  return w->second.want;
}
static Ref ref_decode(Rng& r, const World& w, uint32_t nut, const Bytes& pl) {
  return ref_decode(r, nut, pl, [&](uint32_t id, bool* known) { return in_force(w.pps, w.st.pps, id, known); },
                    [&](uint32_t id, bool* known) { return in_force(w.sps, w.st.sps, id, known); });
}

// ---- changes to coded values
typedef std::vector<bool> Bits;
static Bits to_bits(const Bytes& b) {
  Bits v;
  BitR r(b);
  while (r.left()) v.push_back(r.bit());
  return v;
}
static Bytes to_bytes(const Bits& b) {
  BitW w;
  for (bool x : b) w.bit(x);
  w.align0();
  return w.b;
}
static Bits code_bits(Rng& r, const Elem& e) {
  BitW w;
  switch (e.kind) {
    case 'e': case 's': {
      uint64_t k;
      switch (r.below(5)) {
        case 0: k = r.below(3); break;
        case 1: k = r.below(20); break;
        case 2: k = e.kind == 'e' ? (uint64_t)std::max<int64_t>(0, e.hi) : 2 * (uint64_t)std::max<int64_t>(0, e.hi); break;
        case 3: k = (e.kind == 'e' ? (uint64_t)std::max<int64_t>(0, e.hi) : 2 * (uint64_t)std::max<int64_t>(0, e.hi)) + 1; break;
        default: k = r.logbelow(1ull << (1 + r.below(31))); break;
      }
      if (k > 0xFFFFFFFEull) k = 0xFFFFFFFEull;
      w.ue(k);
      break;
    }
    default: {
      int n = e.nbits;
      uint64_t mx = n >= 63 ? UINT64_MAX : ((uint64_t)1 << n) - 1;
      w.put(n == 1 ? !e.val : r.chance(0.2) ? 0 : r.chance(0.2) ? mx : r.next() & mx, n);
    }
  }
  Bits v;
  BitR rd(w.b);
  for (size_t i = 0; i < w.n; i++) v.push_back(rd.bit());
  return v;
}
static const char* change(Rng& r, Bits& b, const std::vector<Elem>& tr, size_t end) {
  end = std::min(end, b.size());
  switch (r.below(tr.empty() ? 4 : 12)) {
    case 0: {
      int k = 1 + (int)r.below(3);
      while (k-- && end) { size_t i = r.below(end); b[i] = !b[i]; }
      return "bits flipped";
    }
    case 1: b.resize(r.below(end + 1)); while (b.size() % 8) b.pop_back(); return "cut";
    case 2: {
      size_t i = r.below(end + 1), k = 1 + r.below(12);
      Bits x;
      for (size_t j = 0; j < k; j++) x.push_back(r.below(2));
      b.insert(b.begin() + (long)i, x.begin(), x.end());
      return "bits inserted";
    }
    case 3: {
      size_t i = r.below(end + 1), k = std::min<size_t>(1 + r.below(12), b.size() - i);
      b.erase(b.begin() + (long)i, b.begin() + (long)(i + k));
      return "bits removed";
    }
    case 4: {  // everything from here on by chance
      size_t i = tr[r.below(tr.size())].pos;
      double p = 0.2 + 0.15 * (double)r.below(5);
      if (i > b.size()) return "nothing";
      size_t n = i + r.below(std::max<size_t>(600, b.size() - i));
      b.resize(std::max(n, b.size()));
      for (size_t j = i; j < b.size(); j++) b[j] = r.chance(p);
      return "rest by chance";
    }
    default: {
      // one to three coded values; from the back, so that positions stay right
      std::vector<size_t> at;
      int k = 1 + (int)r.below(3);
      while (k--) at.push_back(r.chance(0.5) ? r.below(tr.size()) : r.below(std::min<size_t>(tr.size(), 60)));
      std::sort(at.rbegin(), at.rend());
      at.erase(std::unique(at.begin(), at.end()), at.end());
      for (size_t i : at) {
        const Elem& e = tr[i];
        if (e.pos + (size_t)e.nbits > b.size()) continue;
        Bits x = code_bits(r, e);
        b.erase(b.begin() + (long)e.pos, b.begin() + (long)(e.pos + (size_t)e.nbits));
        b.insert(b.begin() + (long)e.pos, x.begin(), x.end());
      }
      return "values recoded";
    }
  }
}

static const char* const kVerdict[] = {"valid", "outside a free range", "cut short", "refused range", "not judged"};

// Feeds one unit to the library and to the reference.
static Ref step(Ctx& c, World& w, const Bytes& nal, bool real, const char* what) {
  Bytes raw = ref_unescape(nal);
  uint32_t nut = (nal[0] >> 1) & 63;
  Bytes pl(raw.begin() + std::min<long>(2, (long)raw.size()), raw.end());
  Ref ref = ref_decode(c.r, w, nut, pl);
  Kind k = ref.u.kind;
  if (k == K_OTHER) return ref;
  c.note(fmt("%s %s", what, hex(nal, 60000).c_str()));
  Exact e(nal);
  auto vps0 = w.st.vps;
  auto sps0 = w.st.sps;
  auto pps0 = w.st.pps;
  auto n = H265NalUnitParser::ParseNalUnit(e.p, e.n, &w.st, opts_all());
  const NalPayload* p = n ? n->nal_unit_payload.get() : nullptr;
  bool got = false;
  if (p) got = p->vps || p->sps || p->pps || p->aud || (p->slice_segment_layer && p->slice_segment_layer->slice_segment_header) || (p->sei && p->sei->payload_state);
  c.count(fmt("%s: %s", kKindName[k], kVerdict[ref.v]));
  if (real) c.count(fmt("real %s: %s", kKindName[k], kVerdict[ref.v]));

  std::string key, d;
  std::string tag = kKindName[k];
  switch (ref.v) {
    case IO::D_VALID:
    case IO::D_SOFT:
      if (ref.v == IO::D_SOFT && !got) { c.count(fmt("%s outside a free range, refused", kKindName[k])); break; }
      d = n ? cmp_payload(ref.u, p, &key) : "no unit";
      if (!d.empty()) c.violation(tag + " " + key, fmt("%s (%s%s%s) type %u: %s", tag.c_str(), what, ref.v == IO::D_SOFT ? "; " : "", ref.why.c_str(), nut, d.c_str()));
      if (!ref.tr.empty()) c.count("elements compared", ref.tr.size());
      break;
    case IO::D_END:
    case IO::D_ENFORCED:
      if (got) c.violation(tag + (ref.v == IO::D_END ? " reported although cut short" : " reported although out of range"),
                           fmt("%s (%s) reported although: %s %s", tag.c_str(), what, ref.v == IO::D_END ? "the data end inside" : "", ref.why.c_str()));
      break;
    default: break;
  }
  if (getenv("VH_TRACE") && hex(nal) == getenv("VH_TRACE")) {
    for (auto& x : ref.tr) printf("  %s=%lld [%lld,%lld] at %zu+%d\n", x.path.c_str(), (long long)x.val, (long long)x.lo, (long long)x.hi, x.pos, x.nbits);
    if (ref.u.spps) { IO f; syn_pps(f, *ref.u.spps); for (auto& x : f.flat) printf("  pps %s=%lld\n", x.first.c_str(), (long long)x.second); }
    if (ref.u.ssps) { IO f; syn_sps(f, *ref.u.ssps); for (auto& x : f.flat) printf("  sps %s=%lld\n", x.first.c_str(), (long long)x.second); }
  }
  // the store holds what was reported and is otherwise as before
  if (p && p->vps) vps0[p->vps->vps_video_parameter_set_id] = p->vps;
  if (p && p->sps) sps0[p->sps->sps_seq_parameter_set_id] = p->sps;
  if (p && p->pps) pps0[p->pps->pps_pic_parameter_set_id] = p->pps;
  if (vps0 != w.st.vps || sps0 != w.st.sps || pps0 != w.st.pps)
    c.violation("store", fmt("%s (%s): the parameter-set store is not the one before with the reported set in it", tag.c_str(), what));
  // remember what the library put in force
  if (p && (ref.v == IO::D_VALID || ref.v == IO::D_SOFT)) {
    if (p->vps) w.vps[p->vps->vps_video_parameter_set_id] = {ref.u.vps, p->vps};
    if (p->sps) w.sps[p->sps->sps_seq_parameter_set_id] = {ref.u.sps, p->sps};
    if (p->pps) w.pps[p->pps->pps_pic_parameter_set_id] = {ref.u.pps, p->pps};
  }
  c.eval(mix(hash_bytes(nal), mix(nut, ref.v)), ref.v != IO::D_UNKNOWN);
  return ref;
}

// Changes the payload of |nal|; sometimes closes the structure again with trailing bits.
static Bytes changed(Ctx& c, const World& w, const Bytes& nal, std::string* how) {
  Bytes raw = ref_unescape(nal);
  if (raw.size() < 3) return nal;
  uint32_t nut = (nal[0] >> 1) & 63;
  Bytes pl(raw.begin() + 2, raw.end());
  if (pl.size() > 6000) pl.resize(6000);
  Ref a = ref_decode(c.r, w, nut, pl);
  Bits b = to_bits(pl);
  *how = change(c.r, b, a.tr, std::max<size_t>(a.end, 8));
  Bytes q = to_bytes(b);
  if (c.r.chance(0.8) && a.u.kind != K_SLICE && a.u.kind != K_SEI) {
    Ref z = ref_decode(c.r, w, nut, q);
    if (z.v == IO::D_END && c.r.chance(0.7)) {   // more bits to go on with
      size_t k = 1 + c.r.below(40);
      double pr = 0.15 * (double)(1 + c.r.below(5));
      Bits m = to_bits(q);
      for (size_t i = 0; i < 8 * k; i++) m.push_back(c.r.chance(pr));
      q = to_bytes(m);
      z = ref_decode(c.r, w, nut, q);
      *how += ", lengthened";
    }
    if (z.v == IO::D_SOFT || z.v == IO::D_VALID) {
      Bits m = to_bits(q);
      m.resize(std::min(z.end, m.size()));
      m.push_back(1);
      q = to_bytes(m);
      *how += ", closed";
    }
  }
  Bytes o(raw.begin(), raw.begin() + 2);
  o.insert(o.end(), q.begin(), q.end());
  return escape(o);
}

VH_MODE(V14, 6000, 400000, "one unit decoded by the library and by the reference; distinct by its bytes") {
  World w;
  std::vector<Bytes> base;
  bool real = c.r.chance(0.3) && !real_files().empty();
  std::string from = "generated";
  if (real) {
    for (auto& n : real_window(c.r, 12, &from)) base.push_back(n);
    c.count("units of real streams", base.size());
    c.count("windows of " + from);
  } else {
    Gen g(c.r);
    static const double ws[] = {0.0, 0.1, 0.3, 0.7};
    g.o.wild = ws[c.r.below(4)];
    g.o.data = 0.3;
    g.o.max_sps_id = 1;
    g.o.max_pps_id = 1;
    size_t n = 2 + c.r.below(5);
    for (Kind k : {K_VPS, K_SPS, K_PPS}) if (c.r.chance(0.95)) base.push_back(g.make(k).nal);
    static const Kind ks[] = {K_SLICE, K_SLICE, K_SLICE, K_SPS, K_PPS, K_VPS, K_SEI, K_AUD};
    for (size_t i = 0; i < n; i++) {
      Unit u = g.make(ks[c.r.below(8)]);
      if (u.layer != 0 && u.kind != K_SLICE) continue;
      base.push_back(u.nal);
    }
  }
  double rate = c.r.chance(0.2) ? 0 : 0.5;
  for (auto& nal : base) {
    bool last = &nal == &base.back();
    int copies = rate == 0 ? 0 : c.r.chance(last ? 1.0 : rate) ? 1 + (int)c.r.below(6) : 0;
    bool before = c.r.chance(0.4);
    if (before) step(c, w, nal, real, from.c_str());
    for (int i = 0; i < copies; i++) {
      std::string how;
      Bytes m = changed(c, w, nal, &how);
      if (m.size() < 2 || how.empty()) continue;
      c.count("change: " + how);
      step(c, w, m, false, (from + ", " + how).c_str());
    }
    if (!before) step(c, w, nal, real, from.c_str());
  }
}

}  // namespace vh
