// P01..P04: RTP payloads and decoder configuration records.
#include <string.h>

#include <algorithm>

#include "build.h"

namespace vh {

typedef H265RtpParser::RtpState Rtp;

static void tune(Ctx& c, Opts& o) {
  o.wild = c.r.chance(0.5) ? 0.05 : 0.2;
  o.max_vps_id = (int)c.r.below(3);
  o.max_sps_id = (int)c.r.below(3);
  o.max_pps_id = (int)c.r.below(4);
  o.pin["scaling_list_enabled_flag"] = c.r.chance(0.15);
  o.pin["pps_scaling_list_data_present_flag"] = c.r.chance(0.15);
  o.pin["vui_parameters_present_flag"] = c.r.chance(0.2);
  o.budget = 20000;
}
static int kinds(const Rtp& p) { return (p.rtp_single ? 1 : 0) | (p.rtp_ap ? 2 : 0) | (p.rtp_fu ? 4 : 0); }
static std::string hdr_text(const NalHeader* h) {
  return h ? fmt("f%u t%u l%u i%u", h->forbidden_zero_bit, h->nal_unit_type, h->nuh_layer_id, h->nuh_temporal_id_plus1) : "none";
}
static std::string hdr_ref(const Bytes& b) {
  if (b.size() < 2) return "none";
  return fmt("f%u t%u l%u i%u", b[0] >> 7, (b[0] >> 1) & 63, ((b[0] & 1) << 5) | (b[1] >> 3), b[1] & 7);
}
static bool same_refs(const PState& a, const PState& b) { return a.vps == b.vps && a.sps == b.sps && a.pps == b.pps; }
// the first units of a state, so that slices find their sets
static void warm(Ctx& c, Gen& g, std::vector<PState*> sts, bool always = false) {
  g.vps.clear(); g.sps.clear(); g.pps.clear();
  for (auto* st : sts) { st->vps.clear(); st->sps.clear(); st->pps.clear(); }
  std::vector<Unit> us;
  if (always || c.r.chance(0.9)) us = {g.make(K_VPS), g.make(K_SPS), g.make(K_PPS)};
  std::string s = "sets";
  for (auto& u : us) s += " " + hex(u.nal, 3000);
  c.note(s);
  for (auto& u : us)
    for (auto* st : sts) { Exact e(u.nal); H265NalUnitParser::ParseNalUnit(e.p, e.n, st, opts_from(0)); }
}

VH_MODE(P01, 6000, 1500000, "one packet; distinct by its bytes") {
  Gen g(c.r);
  tune(c, g.o);
  PState st, ref;
  warm(c, g, {&st, &ref});
  bool stale = false;   // sets the model does not know about may have arrived
  for (int k = 0; k < 8; k++) {
    Bytes p;
    if (stale) { warm(c, g, {&st, &ref}, true); stale = false; }
    Unit u;
    bool made = false;
    uint64_t how = c.r.below(10);
    if (how < 5) { u = c.r.chance(0.15) ? g.make_broken((Kind)c.r.below(5)) : g.make(c.r.chance(0.4) ? K_SLICE : (Kind)c.r.below(7)); p = u.nal; made = u.nut < 48; }
    else if (how < 7) {   // damaged unit
      p = g.make((Kind)c.r.below(6)).nal;
      mutate(c.r, p);
      if (p.size() > 0 && ((p[0] >> 1) & 63) == 48 && c.r.chance(0.8)) p[0] ^= 0x10;
      stale = true;
    } else if (how < 9) { // any type, reserved ones included
      p = c.r.bytes((size_t)c.r.logbelow(60));
      if (p.size() > 0) p[0] = (uint8_t)((p[0] & 0x81) | (c.r.below(64) << 1));
      stale = true;
    } else p = c.r.bytes((size_t)c.r.below(4));
    if (made && c.cur % 120 == 5) { inflate(c.r, u, wrap_size(c.r, 65536) + (size_t)c.r.below(70000)); p = u.nal; c.count("packets of tens of kilobytes and more"); }
    c.note("packet", p);
    c.eval(hash_bytes(p), !p.empty());
    uint32_t t = p.size() ? (p[0] >> 1) & 63 : 0;
    auto before = clone_refs(st);
    Exact e(p);
    auto rtp = H265RtpParser::ParseRtp(e.p, e.n, &st);
    if (p.size() < 2) {
      c.count("packets without a header");
      if (rtp) c.violation("packet without a header reported", hex(p));
      continue;
    }
    if (rtp && hdr_text(rtp->nal_unit_header.get()) != hdr_ref(p)) c.violation("packet header", hdr_text(rtp->nal_unit_header.get()) + " expected " + hdr_ref(p));
    int want = t <= 47 ? 1 : t == 48 ? 2 : t == 49 ? 4 : 0;
    if (rtp && kinds(*rtp) != want) c.violation(fmt("packet kind of type %s", t <= 47 ? "<48" : t == 48 ? "48" : t == 49 ? "49" : ">49"), fmt("type %u: kinds %d", t, kinds(*rtp)));
    c.count(t <= 47 ? "single unit packets" : t == 48 ? "type 48" : t == 49 ? "type 49" : "reserved types");
    if (t > 49) {
      if (!rtp) c.violation("reserved packet type", fmt("type %u: no header reported", t));
      if (!same_refs(*before, st)) c.violation("reserved packet type changed the state", hex(p, 200));
      continue;
    }
    if (t > 47) { if (!same_refs(ref, st)) { ref.vps = st.vps; ref.sps = st.sps; ref.pps = st.pps; } continue; }
    // the same unit, parsed directly on an equal state
    Exact e2(p);
    auto n = H265NalUnitParser::ParseNalUnit(e2.p, e2.n, &ref, opts_all());
    if ((n != nullptr) != (rtp != nullptr)) { c.violation("single unit reported or not", fmt("unit %d packet %d", n != nullptr, rtp != nullptr)); continue; }
    if (!rtp || !rtp->rtp_single) continue;
    auto& s = *rtp->rtp_single;
    if (!s.nal_unit_header || !s.nal_unit_payload) { c.violation("single unit without header or payload", hex(p, 200)); continue; }
    if (hdr_text(s.nal_unit_header.get()) != hdr_ref(p)) c.violation("unit header", hdr_text(s.nal_unit_header.get()) + " expected " + hdr_ref(p));
    std::string a = dump(*s.nal_unit_payload, t, opts_all()), b = dump(*n->nal_unit_payload, t, opts_all());
    c.count("payloads compared with direct parsing");
    if (a != b) c.violation("payload differs from direct parsing", fmt("type %u\n%s\n%s", t, a.c_str(), b.c_str()));
    if (dump_state(st) != dump_state(ref)) { c.violation("state differs from direct parsing", hex(p, 300)); return; }
    if (made) {
      std::string key, d = cmp_header(u, s.nal_unit_header.get(), &key);
      if (d.empty()) d = cmp_payload(u, s.nal_unit_payload.get(), &key);
      c.count(std::string("valid packets ") + kKindName[u.kind] + (u.broken ? " broken" : ""));
      if (!d.empty()) c.violation(std::string(kKindName[u.kind]) + " " + key, d);
    }
  }
  c.sample(fmt("%zu sps %zu pps", st.sps.size(), st.pps.size()));
}

VH_MODE(P02, 7000, 500000, "one aggregation packet; distinct by its bytes") {
  Gen g(c.r);
  tune(c, g.o);
  g.o.data = 0.5;
  PState st, ref;
  warm(c, g, {&st, &ref});
  for (int k = 0; k < 3; k++) {
    std::vector<Unit> us;
    size_t n = c.r.chance(0.05) ? 0 : 1 + (size_t)c.r.below(c.r.chance(0.1) ? 20 : 5);
    bool many = c.cur % 100 == 7 && k == 0;
    bool mixed = many && c.r.chance(0.5);
    if (many) { n = c.cur % 3500 == 7 ? 66000 : 200 + (size_t)c.r.below(400); c.count("packets of hundreds or many thousands of units"); }
    for (size_t i = 0; i < n; i++) {
      Kind kd = many && !(mixed && i < 300) ? K_AUD : c.r.chance(0.35) ? K_SLICE : (Kind)c.r.below(7);
      Unit u = c.r.chance(0.2) ? g.make_broken(kd) : g.make(kd);
      if (c.r.chance(0.15) && u.kind == K_SLICE) {
        // more slice data: sizes up to the largest, many emulation prevention bytes
        Bytes pay(u.raw.begin() + 2, u.raw.end());
        if (pay.empty()) pay.push_back(0x80);
        size_t more = (size_t)c.r.logbelow(c.r.chance(0.1) ? 33000 : 600);
        for (size_t j = 0; j < more; j++) pay.push_back((uint8_t)(c.r.chance(0.6) ? 0 : c.r.below(5)));
        pay.push_back((uint8_t)(1 + c.r.below(255)));
        if (!u.broken) finish(u, pay);
      }
      if (c.r.chance(0.1) && u.kind == K_OTHER) finish(u, Bytes());   // just a header
      if (u.nal.size() < 65536) us.push_back(u);
      c.count(std::string("units ") + kKindName[u.kind] + (u.broken ? " broken" : ""));
    }
    Bytes p = rtp_ap(us);
    c.note("aggregation", p);
    c.eval(hash_bytes(p));
    {
      auto before = clone_refs(st);
      Exact e(p);
      auto rtp = H265RtpParser::ParseRtp(e.p, e.n, &st);
      if (!rtp || kinds(*rtp) != 2) { c.violation("aggregation packet refused", describe(us)); return; }
      auto& a = *rtp->rtp_ap;
      if (hdr_text(rtp->nal_unit_header.get()) != hdr_ref(p) || hdr_text(a.header.get()) != hdr_ref(p)) c.violation("packet header", hdr_text(a.header.get()));
      if (a.nal_unit_sizes.size() != us.size() || a.nal_unit_headers.size() != us.size() || a.nal_unit_payloads.size() != us.size()) {
        c.violation("number of units", fmt("%zu sizes %zu headers %zu payloads for %zu units", a.nal_unit_sizes.size(), a.nal_unit_headers.size(), a.nal_unit_payloads.size(), us.size()));
        return;
      }
      for (size_t i = 0; i < us.size(); i++) {
        auto& u = us[i];
        c.maximum("unit size", u.nal.size());
        if (a.nal_unit_sizes[i] != u.nal.size()) c.violation("unit size", fmt("%zu expected %zu", a.nal_unit_sizes[i], u.nal.size()));
        std::string key, d = cmp_header(u, a.nal_unit_headers[i].get(), &key);
        if (d.empty()) d = cmp_payload(u, a.nal_unit_payloads[i].get(), &key);
        c.count("units compared");
        if (!d.empty()) { c.violation(std::string(kKindName[u.kind]) + " " + key, fmt("unit %zu of %s: %s", i, describe(us).c_str(), d.c_str())); return; }
        Exact x(u.nal);
        auto nu = H265NalUnitParser::ParseNalUnit(x.p, x.n, &ref, opts_from(0));
        std::string w = dump(*nu->nal_unit_payload, u.nut, opts_all()), t = dump(*a.nal_unit_payloads[i], u.nut, opts_all());
        if (w != t) c.violation("differs from direct parsing", fmt("unit %zu of %s\n%s\n%s", i, describe(us).c_str(), t.c_str(), w.c_str()));
      }
      if (dump_state(st) != dump_state(ref)) c.violation("state differs from direct parsing", describe(us));
      std::string key, d = cmp_state(g, st, &key);
      // units of other ids that came before the model started are not in it: it holds all
      if (!d.empty()) c.violation("state: " + key, d);
    }
    // packets whose sizes do not fit
    for (int t = 0; t < 3; t++) {
      Bytes m;
      std::string what;
      uint64_t how = c.r.below(5);
      if (us.empty()) how = 3;
      if (how == 0) {   // cut anywhere but between units
        std::set<size_t> good = {2};
        size_t at = 2;
        for (auto& u : us) { at += 2 + u.nal.size(); good.insert(at); }
        size_t cut = 2 + (size_t)c.r.below(p.size() - 2);
        if (c.r.chance(0.3)) cut = p.size() - 1;
        if (good.count(cut)) continue;
        m.assign(p.begin(), p.begin() + (long)cut);
        what = "cut";
      } else if (how == 1) {  // the last unit claims more than there is
        m = p;
        size_t at = p.size() - us.back().nal.size() - 2;
        size_t sz = us.back().nal.size() + 1 + (c.r.chance(0.5) ? 0 : (size_t)c.r.logbelow(60000));
        if (sz > 65535) continue;
        m[at] = (uint8_t)(sz >> 8);
        m[at + 1] = (uint8_t)sz;
        what = "size too large";
      } else if (how == 2) {  // the last unit claims one byte less: a stray byte follows
        m = p;
        size_t at = p.size() - us.back().nal.size() - 2, sz = us.back().nal.size() - 1;
        if (sz < 2) continue;
        m[at] = (uint8_t)(sz >> 8);
        m[at + 1] = (uint8_t)sz;
        what = "stray byte";
      } else if (how == 3) {  // one byte of a size
        m = p;
        m.push_back((uint8_t)c.r.below(2));
        what = "half a size";
      } else {  // a unit too short for a header, somewhere
        size_t at = 2;
        size_t i = (size_t)c.r.below(us.size() + 1);
        for (size_t j = 0; j < i; j++) at += 2 + us[j].nal.size();
        m.assign(p.begin(), p.begin() + (long)at);
        size_t sz = (size_t)c.r.below(2);
        m.push_back(0);
        m.push_back((uint8_t)sz);
        if (sz) m.push_back((uint8_t)c.r.next());
        m.insert(m.end(), p.begin() + (long)at, p.end());
        what = "unit without a header";
      }
      c.note("bad aggregation", m);
      auto before = clone_refs(st);
      std::string was = dump_state(st);
      Exact e(m);
      auto rtp = H265RtpParser::ParseRtp(e.p, e.n, &st);
      c.count("bad packets, " + what);
      if (rtp) c.violation("packet accepted: " + what, hex(m, 300));
      if (!same_refs(*before, st) || dump_state(st) != was) c.violation("refused packet changed the state: " + what, hex(m, 300));
    }
    c.sample(describe(us));
  }
}

VH_MODE(P03, 9000, 700000, "one unit sent as fragments; distinct by the unit and its cuts") {
  Gen g(c.r);
  tune(c, g.o);
  PState st, ref;
  warm(c, g, {&st, &ref});
  for (int k = 0; k < 3; k++) {
    Unit u = c.r.chance(0.1) ? g.make_broken((Kind)c.r.below(5)) : g.make(c.r.chance(0.4) ? K_SLICE : (Kind)c.r.below(7));
    if (c.cur % 120 == 5 && !u.broken) { inflate(c.r, u, wrap_size(c.r, 65536) + (size_t)c.r.below(70000)); if (u.nal.size() > 65536) c.count("units of more than 65536 bytes"); }
    if (u.nal.size() < 4) continue;
    // cuts in the payload bytes
    std::vector<size_t> cut = {2};
    size_t n = (size_t)c.r.below(4);
    bool whole_first = c.r.chance(0.4);
    for (size_t i = 0; i < n; i++) cut.push_back(3 + (whole_first && u.payload_bits / 8 + 6 < u.nal.size() ? u.payload_bits / 8 + 3 + (size_t)c.r.below(u.nal.size() - u.payload_bits / 8 - 6) : (size_t)c.r.below(u.nal.size() - 3)));
    cut.push_back(u.nal.size());
    std::sort(cut.begin(), cut.end());
    cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
    uint64_t h = hash_bytes(u.nal);
    for (auto x : cut) h = mix(h, x);
    c.eval(h);
    for (size_t i = 0; i + 1 < cut.size(); i++) {
      bool s = i == 0, e = i + 2 == cut.size();
      if (c.r.chance(0.05)) e = !e;
      if (c.r.chance(0.03)) s = !s;
      Bytes p = rtp_fu(u, cut[i], cut[i + 1], s, e);
      if (!s && c.r.chance(0.05)) p.resize(3);
      // starting fragments without payload bytes, or of types that have no payload structure
      uint32_t type = u.nut;
      bool odd = false;
      if (s && c.r.chance(0.03)) { p.resize(3); odd = true; c.count("starting fragments without payload bytes"); }
      if (c.r.chance(0.03)) { type = c.r.chance(0.7) ? 48 + (uint32_t)c.r.below(16) : 41 + (uint32_t)c.r.below(7); p[2] = (uint8_t)((p[2] & 0xc0) | type); odd = true; c.count("fragments of other types"); }
      c.note("fragment", p);
      auto before = clone_refs(st);
      std::string was = dump_state(st);
      Exact x(p);
      auto rtp = H265RtpParser::ParseRtp(x.p, x.n, &st);
      if (!rtp || kinds(*rtp) != 4) { c.violation("fragment refused", hex(p, 200)); return; }
      auto& f = *rtp->rtp_fu;
      c.count(s ? "starting fragments" : e ? "ending fragments" : "inner fragments");
      if (hdr_text(rtp->nal_unit_header.get()) != hdr_ref(p) || hdr_text(f.header.get()) != hdr_ref(p)) c.violation("packet header", hdr_text(f.header.get()) + " expected " + hdr_ref(p));
      if (f.s_bit != (s ? 1u : 0u) || f.e_bit != (e ? 1u : 0u) || f.fu_type != type)
        c.violation("fragment markers", fmt("s %u e %u type %u, expected %d %d %u", f.s_bit, f.e_bit, f.fu_type, s, e, type));
      if (!s) {
        if (f.nal_unit_payload) c.violation("payload of a later fragment", hex(p, 200));
        if (!same_refs(*before, st) || dump_state(st) != was) c.violation("later fragment changed the state", hex(p, 200));
        continue;
      }
      if (!f.nal_unit_payload) { c.violation("no payload in a starting fragment", hex(p, 200)); return; }
      // the same bytes as a (cut) unit
      Bytes cutu(u.nal.begin(), u.nal.begin() + 2);
      if (p.size() > 3) cutu.insert(cutu.end(), u.nal.begin() + (long)cut[i], u.nal.begin() + (long)cut[i + 1]);
      if (type != u.nut) cutu[0] = (uint8_t)((cutu[0] & 0x81) | (type << 1));
      Exact y(cutu);
      auto nu = H265NalUnitParser::ParseNalUnit(y.p, y.n, &ref, opts_from(0));
      std::string a = dump(*f.nal_unit_payload, type, opts_all()), b = dump(*nu->nal_unit_payload, type, opts_all());
      c.count("starting payloads compared");
      auto &fp = *f.nal_unit_payload, &np = *nu->nal_unit_payload;
      if (!fp.vps != !np.vps || !fp.sps != !np.sps || !fp.pps != !np.pps || !fp.aud != !np.aud || !fp.sei != !np.sei || !fp.slice_segment_layer != !np.slice_segment_layer)
        c.violation("payload kind differs from the unit's", fmt("type %u: %s", type, hex(p, 200).c_str()));
      if (a != b) c.violation("differs from parsing the fragment's bytes as a unit", fmt("%s\n%s", a.c_str(), b.c_str()));
      if (dump_state(st) != dump_state(ref)) { c.violation("state differs from direct parsing", hex(p, 300)); return; }
      if (i == 0 && !odd) {
        size_t raw = ref_unescape(cutu).size() - 2;
        bool all = cut[1] == u.nal.size() || (u.kind == K_SLICE && !u.broken && raw * 8 >= u.payload_bits + 16);
        bool none = !all && !u.broken && u.need_bits && raw * 8 < u.need_bits && u.kind != K_SEI;
        if (all) {
          std::string key, d = cmp_payload(u, f.nal_unit_payload.get(), &key);
          c.count(fmt("fragments with everything: %s", kKindName[u.kind]));
          if (!d.empty()) { c.violation(std::string("fields ") + kKindName[u.kind] + " " + key, d); return; }
        }
        if (none) {
          c.count(fmt("fragments too short: %s", kKindName[u.kind]));
          auto* q = f.nal_unit_payload.get();
          if (q->vps || q->sps || q->pps || q->aud || q->slice_segment_layer) c.violation(std::string("fields from too short a fragment: ") + kKindName[u.kind], hex(p, 300));
        }
      }
    }
    // too short for the fragment header
    for (size_t z = 0; z < 3; z++) {
      Bytes p = rtp_fu(u, 2, 2, true, false);
      p.resize(z);
      if (p.size() < 2 && c.r.chance(0.7)) continue;
      Exact x(p);
      auto before = clone_refs(st);
      auto rtp = H265RtpParser::ParseRtp(x.p, x.n, &st);
      c.count("packets too short for a fragment");
      if (rtp) c.violation("packet too short for a fragment reported", hex(p));
      if (!same_refs(*before, st)) c.violation("refused fragment changed the state", hex(p));
    }
    // cut sets did not arrive: start again with sets that have
    warm(c, g, {&st, &ref}, true);
    c.sample(fmt("%s in %zu fragments", describe({u}).c_str(), cut.size() - 1));
  }
}

VH_MODE(P04, 6000, 500000, "one configuration record; distinct by its bytes") {
  Gen g(c.r);
  tune(c, g.o);
  PState st;
  std::vector<std::vector<Unit>> arrays((size_t)(c.cur % 1000 == 3 ? 200 + c.r.below(56) : c.cur % 3000 == 9 ? 1 + c.r.below(3) : c.r.below(c.r.chance(0.1) ? 30 : 6)));
  std::vector<Unit> all;
  for (auto& a : arrays) {
    size_t n = (size_t)c.r.below(5);
    if (c.r.chance(0.003)) n = 300;
    if (c.cur % 3000 == 9 && &a == &arrays[0]) n = 65535 - (size_t)c.r.below(3);
    for (size_t i = 0; i < n; i++) {
      Kind kd = n > 1000 ? K_AUD : n > 100 ? K_OTHER : c.r.chance(0.6) ? (Kind)c.r.below(3) : (Kind)c.r.below(7);
      Unit u;
      if (c.r.chance(0.95)) {
        u = c.r.chance(0.1) ? g.make_broken(kd) : g.make(kd);
      } else {   // no unit at all: absent
        u.kind = K_NONE;
        u.nut = 32;
        u.nal = Bytes((size_t)c.r.below(2), (uint8_t)c.r.next());
      }
      if (n <= 100 && c.r.chance(0.002) && !u.broken && u.nal.size() < 1000) {   // up to the largest size
        for (int t = 0; t < 20 && u.nal.size() < 65535; t++) { Unit v = u; inflate(c.r, v, t == 0 ? 64500 : (size_t)c.r.below(65536 - u.nal.size())); if (v.nal.size() <= 65535) u = v; }
        if (u.nal.size() > 60000) c.count("units of about 65535 bytes");
      }
      if (u.nal.size() > 65535) continue;
      c.count(std::string("units ") + kKindName[u.kind] + (u.broken ? " broken" : ""));
      a.push_back(u);
      all.push_back(u);
    }
  }
  IO io(c.r);
  io.wild = 0.4;
  io.budget = 1u << 26;
  Box b;
  syn_hvcc(io, b, arrays);
  Bytes p = io.w.b;
  c.note("record", p);
  c.eval(hash_bytes(p));
  {
    Exact e(p);
    auto o = opts_from((uint32_t)c.r.below(32));
    auto r = H265ConfigurationBoxParser::ParseConfigurationBox(e.p, e.n, &st, o);
    if (!r) { c.violation("valid record refused", hex(p, 300)); return; }
    std::string key;
    std::string d = compare(b, *r, [&](IO& x, Box& y) { syn_hvcc(x, y, arrays); }, &key);
    c.count("records compared");
    if (!d.empty()) { c.violation("record " + key, d); return; }
    if (r->nalUnit.size() != arrays.size()) { c.violation("number of arrays", fmt("%zu", r->nalUnit.size())); return; }
    for (size_t j = 0; j < arrays.size(); j++) {
      if (r->nalUnit[j].size() != arrays[j].size()) { c.violation("number of units", fmt("array %zu: %zu", j, r->nalUnit[j].size())); return; }
      for (size_t i = 0; i < arrays[j].size(); i++) {
        auto* n = r->nalUnit[j][i].get();
        auto& u = arrays[j][i];
        if (u.kind == K_NONE) { if (n) c.violation("unit without a header reported", hex(u.nal)); continue; }
        if (!n) { c.violation("unit absent", fmt("array %zu unit %zu", j, i)); return; }
        d = cmp_unit(u, n, &key);
        c.count("units compared");
        if (!d.empty()) { c.violation(std::string(kKindName[u.kind]) + " " + key, fmt("array %zu unit %zu of %s: %s", j, i, describe(all).c_str(), d.c_str())); return; }
      }
    }
    d = cmp_state(g, st, &key);
    if (!d.empty()) c.violation("state: " + key, d);
  }
  // refused: any missing byte, another version, wrong reserved bits
  auto refuse = [&](const Bytes& m, const std::string& what) {
    c.note(("bad record " + what).c_str(), m);
    Exact e(m);
    PState s2;
    c.count("bad records, " + what);
    if (H265ConfigurationBoxParser::ParseConfigurationBox(e.p, e.n, &s2, opts_from(0))) c.violation("record accepted: " + what, hex(m, 300));
  };
  for (int t = 0; t < 4; t++) refuse(Bytes(p.begin(), p.begin() + (long)(c.r.chance(0.2) ? p.size() - 1 : c.r.chance(0.2) ? c.r.below(std::min<size_t>(24, p.size())) : c.r.below(p.size()))), "cut");
  for (auto& e : io.tr) {
    if (!e.enforced || !c.r.chance(e.lo == 0 ? 0.2 : 0.6)) continue;
    Bytes m = p;
    uint64_t v;
    do { v = c.r.below(1ull << e.nbits); } while ((int64_t)v >= e.lo && (int64_t)v <= e.hi);
    if (c.r.chance(0.5)) v = (uint64_t)e.lo ^ (1ull << c.r.below((uint64_t)e.nbits));
    for (int i = 0; i < e.nbits; i++) {
      size_t q = e.pos + (size_t)i;
      uint8_t bit = (uint8_t)(0x80 >> (q % 8));
      if ((v >> (e.nbits - 1 - i)) & 1) m[q / 8] |= bit; else m[q / 8] = (uint8_t)(m[q / 8] & ~bit);
    }
    refuse(m, e.name);
  }
  c.sample(fmt("%zu arrays, %zu units, %zu bytes", arrays.size(), all.size(), p.size()));
}
}  // namespace vh
