// H01..H04: histories of units against a sequential model of the parameter-set store; lifetime of results.
#include <string.h>

#include <algorithm>

#include "build.h"

namespace vh {

// Results of feeding some units to the library along one route; owns everything returned.
struct Fed {
  std::vector<std::unique_ptr<Stream>> streams;
  std::vector<std::unique_ptr<Nal>> nals;
  std::vector<std::unique_ptr<H265RtpParser::RtpState>> rtps;
  std::vector<std::shared_ptr<Box>> boxes;
  struct Item { const NalHeader* h; const NalPayload* p; };
  std::vector<Item> items;
  void add(const NalHeader* h, const NalPayload* p) { items.push_back(Item{h, p}); }
  void add(const std::vector<std::unique_ptr<Nal>>& v) {
    for (auto& n : v) add(n ? n->nal_unit_header.get() : nullptr, n ? n->nal_unit_payload.get() : nullptr);
  }
};
enum Route { R_STREAM, R_PREFIX, R_UNIT, R_RAW, R_ZERO, R_SINGLE, R_AP, R_BOX, R_COUNT };
static const char* const kRoute[] = {"start codes", "length prefix", "unit", "unescaped unit", "width zero", "RTP single", "RTP aggregation", "configuration box"};

// Feeds |us|; the input buffers are gone when this returns.
static Fed feed(Rng& r, Route route, const std::vector<Unit>& us, PState* st, ParsingOptions o) {
  Fed f;
  switch (route) {
    case R_STREAM: {
      Exact e(annexb(r, us));
      f.streams.push_back(H265BitstreamParser::ParseBitstream(e.p, e.n, st, o));
      if (f.streams.back()) f.add(f.streams.back()->nal_units);
      break;
    }
    case R_PREFIX: {
      size_t w = 3 + (size_t)r.below(3);
      Exact e(prefixed(us, w));
      f.streams.push_back(H265BitstreamParser::ParseBitstreamNALULength(e.p, e.n, w, st, o));
      if (f.streams.back()) f.add(f.streams.back()->nal_units);
      break;
    }
    case R_UNIT: case R_RAW:
      for (auto& u : us) {
        Exact e(route == R_UNIT ? u.nal : u.raw);
        f.nals.push_back(route == R_UNIT ? H265NalUnitParser::ParseNalUnit(e.p, e.n, st, o) : H265NalUnitParser::ParseNalUnitUnescaped(e.p, e.n, st, o));
      }
      f.add(f.nals);
      break;
    case R_ZERO:
      for (auto& u : us) {
        Exact e(u.nal);
        f.streams.push_back(H265BitstreamParser::ParseBitstreamNALULength(e.p, e.n, 0, st, o));
        if (f.streams.back()) f.add(f.streams.back()->nal_units);
      }
      break;
    case R_SINGLE:
      for (auto& u : us) {
        Exact e(u.nal);
        f.rtps.push_back(H265RtpParser::ParseRtp(e.p, e.n, st));
        auto* s = f.rtps.back() ? f.rtps.back()->rtp_single.get() : nullptr;
        f.add(s ? s->nal_unit_header.get() : nullptr, s ? s->nal_unit_payload.get() : nullptr);
      }
      break;
    case R_AP: {
      Exact e(rtp_ap(us));
      f.rtps.push_back(H265RtpParser::ParseRtp(e.p, e.n, st));
      auto* a = f.rtps.back() ? f.rtps.back()->rtp_ap.get() : nullptr;
      if (a)
        for (size_t i = 0; i < a->nal_unit_headers.size() && i < a->nal_unit_payloads.size(); i++)
          f.add(a->nal_unit_headers[i].get(), a->nal_unit_payloads[i].get());
      break;
    }
    case R_BOX: {
      std::vector<std::vector<Unit>> arrays;
      for (auto& u : us) {
        while (r.chance(0.1)) arrays.emplace_back();
        if (arrays.empty() || r.chance(0.6)) arrays.emplace_back();
        arrays.back().push_back(u);
      }
      IO io(r);
      Box b;
      syn_hvcc(io, b, arrays);
      Exact e(io.w.b);
      f.boxes.push_back(H265ConfigurationBoxParser::ParseConfigurationBox(e.p, e.n, st, o));
      if (f.boxes.back()) for (auto& a : f.boxes.back()->nalUnit) f.add(a);
      break;
    }
    default: break;
  }
  return f;
}
static Route pick_route(Rng& r, const std::vector<Unit>& us) {
  Route x = (Route)r.below(R_COUNT);
  bool big = false, ext = false;
  for (auto& u : us) { if (u.nal.size() > 60000) big = true; if (u.nut >= 48) ext = true; }
  if ((big && (x == R_AP || x == R_BOX)) || (ext && x == R_SINGLE)) return R_STREAM;
  return x;
}
static int present(const NalPayload* p) {
  if (!p) return 0;
  return (p->vps ? 1 : 0) | (p->sps ? 2 : 0) | (p->pps ? 4 : 0) | (p->slice_segment_layer ? 8 : 0) | (p->sei ? 16 : 0) | (p->aud ? 32 : 0);
}
static void tune(Ctx& c, Opts& o) {
  o.wild = c.r.chance(0.5) ? 0.05 : 0.2;
  o.max_vps_id = (int)c.r.below(4);
  o.max_sps_id = (int)c.r.below(4);
  o.max_pps_id = (int)c.r.below(5);
  o.pin["scaling_list_enabled_flag"] = c.r.chance(0.15);
  o.pin["pps_scaling_list_data_present_flag"] = c.r.chance(0.15);
  o.pin["vui_parameters_present_flag"] = c.r.chance(0.2);
  o.budget = 20000;
  o.twin = c.r.chance(0.7) ? 0.3 : 0;
}
// Lookups by every id, through the accessors and through the maps.
static std::string lookups(const Gen& g, const PState& s, std::string* key) {
  std::string d = cmp_state(g, s, key);
  if (!d.empty()) return d;
  for (uint32_t id = 0; id < 70; id++) {
    auto v = s.GetVps(id);
    auto p = s.GetSps(id);
    auto q = s.GetPps(id);
    if ((v != nullptr) != (g.vps.count(id) != 0) || (v && v->vps_video_parameter_set_id != id)) { *key = "GetVps"; return fmt("GetVps(%u)", id); }
    if ((p != nullptr) != (g.sps.count(id) != 0) || (p && p->sps_seq_parameter_set_id != id)) { *key = "GetSps"; return fmt("GetSps(%u)", id); }
    if ((q != nullptr) != (g.pps.count(id) != 0) || (q && q->pps_pic_parameter_set_id != id)) { *key = "GetPps"; return fmt("GetPps(%u)", id); }
  }
  // neither do ids that differ from a sent one only in bits no id has
  for (int kind = 0; kind < 3; kind++)
    for (uint32_t id = 0; id < 64; id++) {
      if (kind == 0 ? !g.vps.count(id) : kind == 1 ? !g.sps.count(id) : !g.pps.count(id)) continue;
      for (uint32_t add : {64u, 128u, 256u, 1024u, 65536u, 1u << 20, 1u << 24, 0x80000000u})
        if (kind == 0 ? s.GetVps(id + add) != nullptr : kind == 1 ? s.GetSps(id + add) != nullptr : s.GetPps(id + add) != nullptr) {
          *key = "lookup of an id never sent";
          return fmt("id %u", id + add);
        }
    }
  for (uint32_t id : {0x7fffffffu, 0xffffffffu, 100u})
    if (s.GetVps(id) || s.GetSps(id) || s.GetPps(id)) { *key = "lookup of an id never sent"; return fmt("id %u", id); }
  return "";
}
static uint64_t hash_units(const std::vector<Unit>& us) {
  uint64_t h = 9;
  for (auto& u : us) h = mix(h, hash_bytes(u.nal));
  return h;
}
static std::string hex_units(const std::vector<Unit>& us) {
  std::string s;
  for (auto& u : us) s += " " + hex(u.nal, 2000);
  return s;
}

VH_MODE(H01, 6000, 400000, "one history of parse calls on one state; distinct by the units fed") {
  Gen g(c.r);
  tune(c, g.o);
  PState st;
  uint64_t h = 1;
  size_t steps = 3 + (size_t)c.r.below(6);
  bool crowd = c.r.chance(0.015);   // every identifier in use
  if (crowd) { steps = 30 + (size_t)c.r.below(30); g.o.max_vps_id = g.o.max_sps_id = 15; g.o.max_pps_id = 63; g.o.wild = 0.02; }
  std::string hist;
  std::vector<Fed> keep;   // results may be held while the state moves on
  for (size_t k = 0; k < steps; k++) {
    std::vector<Unit> us;
    size_t n = 1 + (size_t)c.r.below(crowd ? 8 : 4);
    for (size_t i = 0; i < n; i++) {
      uint64_t x = c.r.below(100);
      Kind kd = x < 25 ? K_VPS : x < 50 ? K_SPS : x < 75 ? K_PPS : x < 88 ? K_SLICE : x < 93 ? K_SEI : x < 96 ? K_AUD : K_OTHER;
      us.push_back(c.r.chance(0.15) ? g.make_broken(kd) : g.make(kd));
      auto& u = us.back();
      c.count(std::string("units ") + kKindName[u.kind] + (u.broken ? " broken" : ""));
    }
    Route rt = pick_route(c.r, us);
    hist += fmt(" | %s:", kRoute[rt]) + hex_units(us);
    c.note(hist);
    h = mix(h, hash_units(us) + rt);
    keep.push_back(feed(c.r, rt, us, &st, opts_from((uint32_t)c.r.below(32))));
    c.count(std::string("calls ") + kRoute[rt]);
    std::string key, d = lookups(g, st, &key);
    c.count("states compared");
    c.eval(h);
    if (!d.empty()) { c.violation(key, fmt("after call %zu (%s, %s): %s", k, kRoute[rt], describe(us).c_str(), d.c_str())); return; }
    if (c.r.chance(0.3)) keep.clear();
  }
  c.count("sets that differ from the replaced one in one element", g.twins);
  c.maximum("sets held", g.vps.size() + g.sps.size() + g.pps.size());
  c.sample(fmt("%zu calls, %zu vps %zu sps %zu pps in the end", steps, g.vps.size(), g.sps.size(), g.pps.size()));
}

VH_MODE(H02, 5000, 300000, "one history with slices between replacements of their parameter sets; distinct by the units") {
  Gen g(c.r);
  tune(c, g.o);
  g.o.max_sps_id = (int)c.r.below(3);
  g.o.max_pps_id = (int)c.r.below(3);
  // many sets, each with slices of its own
  const bool crowd = c.r.chance(0.12);
  if (crowd) { g.o.max_sps_id = (int)c.r.below(16); g.o.max_pps_id = 3 + (int)c.r.below(61); g.o.wild = 0.02; c.count("histories with many parameter sets"); }
  PState st;
  std::vector<Unit> all;
  std::vector<Fed> fed;
  std::vector<std::string> seen;   // dumps of everything as reported on arrival
  std::string hist;
  // phase one: feed
  bool one_go = c.r.chance(0.3);
  std::vector<Unit> pend;
  size_t n = (crowd ? 25 : 6) + (size_t)c.r.below(12);
  uint64_t replaced = 0;
  for (size_t i = 0; i < n; i++) {
    uint64_t x = c.r.below(100);
    Kind kd = i == 0 ? K_SPS : i == 1 ? K_PPS : x < 50 ? K_SLICE : x < 68 ? K_SPS : x < 88 ? K_PPS : x < 94 ? K_VPS : K_OTHER;
    if (i < 2 && c.r.chance(0.1)) kd = K_SLICE;
    Unit u = c.r.chance(0.06) ? g.make_broken(kd) : g.make(kd);
    if (!u.broken && (kd == K_SPS || kd == K_PPS)) replaced++;
    c.count(std::string("units ") + kKindName[u.kind] + (u.broken ? " broken" : ""));
    if (u.kind == K_SLICE && u.broken && u.why.find("no ") == 0) c.count("slices with an incomplete chain");
    all.push_back(u);
    pend.push_back(u);
    if ((one_go || c.r.chance(0.5)) && i + 1 < n) continue;
    Route rt = pick_route(c.r, pend);
    hist += fmt(" | %s:", kRoute[rt]) + hex_units(pend);
    c.note(hist);
    fed.push_back(feed(c.r, rt, pend, &st, opts_from(0)));
    if (fed.back().items.size() != pend.size()) { c.violation("number of units", fmt("%s: %zu units fed, %zu reported", kRoute[rt], pend.size(), fed.back().items.size())); return; }
    for (size_t j = 0; j < pend.size(); j++) {
      auto& it = fed.back().items[j];
      std::string key, d = cmp_payload(pend[j], it.p, &key);
      if (!d.empty()) { c.violation(std::string(kKindName[pend[j].kind]) + " " + key, fmt("%s after %zu units: %s", kRoute[rt], all.size(), d.c_str())); return; }
      seen.push_back(dump(*it.p, it.h->nal_unit_type, opts_from(0)));
      if (pend[j].slice) c.count("slices compared");
    }
    pend.clear();
  }
  c.eval(hash_units(all));
  // phase two: earlier results have not moved
  size_t k = 0;
  for (auto& f : fed)
    for (auto& it : f.items) {
      std::string key, d = cmp_payload(all[k], it.p, &key);
      if (d.empty() && dump(*it.p, it.h->nal_unit_type, opts_from(0)) != seen[k]) { d = "the dump changed"; key = "dump"; }
      if (!d.empty()) { c.violation("earlier result changed: " + key, fmt("unit %zu (%s): %s", k, kKindName[all[k].kind], d.c_str())); return; }
      k++;
    }
  c.count("parameter sets sent", replaced);
  c.sample(describe(all));
}

VH_MODE(H03, 6000, 400000, "one stream with broken units put into it; distinct by the units and where they were put") {
  Gen g(c.r);
  tune(c, g.o);
  // a state with many sets
  const bool crowd = c.r.chance(0.08);
  if (crowd) { g.o.max_vps_id = g.o.max_sps_id = 15; g.o.max_pps_id = 63; g.o.wild = 0.02; c.count("streams with many parameter sets"); }
  // broken units come in at the place they are built for: the model there is the sets in force there.
  // No result may come of them, so the model stays as it is.
  std::vector<Unit> good, bad;
  std::vector<long> src;   // for each unit of bad: index in good, -1 (broken), or -2 (no header: not a unit at all)
  auto insert = [&] {
    Unit u;
    long how = -1;
    uint64_t kind = c.r.below(10);
    if (kind < 5) {
      u = g.make_broken((Kind)c.r.below(4));
      if (!u.broken) return;
    } else if (kind < 7) {
      u = g.make_other();
    } else if (kind < 8) {
      u.nut = 41; u.kind = K_OTHER;
      u.nal = Bytes(1, (uint8_t)(2 + c.r.below(254)));  // one byte: no header
      how = -2;
    } else {
      // parameter set header with nothing or only garbage that cannot be complete
      u.nut = 32 + (uint32_t)c.r.below(3); u.kind = kind_of(u.nut); u.broken = true; u.why = "almost empty";
      finish(u, Bytes((size_t)c.r.below(2), 0x80));
      if (u.kind == K_PPS && u.raw.size() > 2) u.raw.resize(2);
      u.nal = u.raw;
    }
    c.count(how == -2 ? "units without a header" : std::string("broken ") + kKindName[u.kind]);
    bad.push_back(u);
    src.push_back(how);
  };
  size_t want = crowd ? 30 + (size_t)c.r.below(30) : 3 + (size_t)c.r.below(8);
  double p = 0.1 + 0.1 * (double)c.r.below(5);
  while (c.r.chance(p)) insert();
  while (good.size() < want) {
    std::vector<Unit> part;
    if (good.empty()) part.push_back(g.make(K_VPS));
    else if (good.size() == 1) part.push_back(g.make(K_SPS));
    else if (good.size() == 2) part.push_back(g.make(K_PPS));
    else { uint64_t x = c.r.below(100); part.push_back(g.make(x < (crowd ? 10 : 50) ? K_SLICE : x < (crowd ? 30 : 60) ? K_VPS : x < (crowd ? 60 : 72) ? K_SPS : x < 88 ? K_PPS : x < 94 ? K_SEI : K_AUD)); }
    for (auto& u : part) { src.push_back((long)good.size()); bad.push_back(u); good.push_back(u); }
    while (c.r.chance(p)) insert();
  }
  c.note("good" + hex_units(good) + " | with broken" + hex_units(bad));
  c.eval(hash_units(bad));
  std::vector<Route> routes = {R_STREAM, R_PREFIX, R_UNIT};
  Route rt = routes[c.r.below(3)];
  PState s1, s2;
  auto o = opts_from(0);
  Fed a = feed(c.r, rt, good, &s1, o);
  Fed b;
  if (rt == R_UNIT) {
    // one by one, so that the state can be watched around each broken unit
    for (size_t i = 0; i < bad.size(); i++) {
      std::string before;
      std::unique_ptr<PState> refs;
      if (src[i] < 0) { before = dump_state(s2); refs = clone_refs(s2); }
      Exact e(bad[i].nal);
      b.nals.push_back(H265NalUnitParser::ParseNalUnit(e.p, e.n, &s2, o));
      if (src[i] < 0) {
        c.count("states compared around a broken unit");
        if (dump_state(s2) != before || refs->vps != s2.vps || refs->sps != s2.sps || refs->pps != s2.pps)
          c.violation(std::string("broken unit changed the state: ") + kKindName[bad[i].kind], fmt("%s (%s)", hex(bad[i].nal, 200).c_str(), bad[i].why.c_str()));
        if (src[i] == -2 && b.nals.back()) c.violation("unit without header reported", hex(bad[i].nal));
      }
      if (src[i] != -2) b.add(b.nals.back() ? b.nals.back()->nal_unit_header.get() : nullptr, b.nals.back() ? b.nals.back()->nal_unit_payload.get() : nullptr);
    }
  } else {
    b = feed(c.r, rt, bad, &s2, o);
  }
  if (dump_state(s1) != dump_state(s2)) c.violation("broken units changed the final state", describe(bad));
  std::string key, d = cmp_state(g, s2, &key);
  if (!d.empty()) c.violation("state: " + key, d);
  size_t k = 0;
  if (a.items.size() != good.size()) { c.violation("number of units", fmt("%zu of %zu good units reported", a.items.size(), good.size())); return; }
  for (size_t i = 0; i < bad.size(); i++) {
    if (src[i] == -2) continue;
    if (k >= b.items.size()) { c.violation("number of units", fmt("%zu units reported", b.items.size())); return; }
    auto& it = b.items[k++];
    if (!it.h || !it.p) { c.violation("unit without header or payload object", describe(bad)); return; }
    if (src[i] == -1) {
      if (present(it.p)) c.violation(std::string("broken unit has a result: ") + kKindName[bad[i].kind], fmt("%s (%s)", hex(bad[i].nal, 200).c_str(), bad[i].why.c_str()));
      continue;
    }
    auto& w = a.items[(size_t)src[i]];
    std::string x = dump(*w.p, w.h->nal_unit_type, o), y = dump(*it.p, it.h->nal_unit_type, o);
    c.count("neighbours compared");
    if (x != y) { c.violation("neighbour changed", fmt("unit %ld of %s:\n%s\n%s", src[i], describe(bad).c_str(), x.c_str(), y.c_str())); return; }
    d = cmp_payload(good[(size_t)src[i]], it.p, &key);
    if (!d.empty()) { c.violation("neighbour " + key, d); return; }
  }
  if (k != b.items.size()) c.violation("number of units", fmt("%zu units reported, %zu expected", b.items.size(), k));
  // arbitrary damage: whenever no structure is reported, nothing may have changed
  for (int t = 0; t < 6; t++) {
    Unit u = g.make((Kind)c.r.below(5));
    Bytes m = u.nal;
    if (m.size() > 2) {
      Bytes tail(m.begin() + 2, m.end());
      mutate(c.r, tail);
      m.resize(2);
      m.insert(m.end(), tail.begin(), tail.end());
    }
    g.vps.clear(); g.sps.clear(); g.pps.clear();  // ids are drawn freely
    c.note("damaged unit", m);
    std::string before = dump_state(s2);
    auto refs = clone_refs(s2);
    Exact e(m);
    auto n = H265NalUnitParser::ParseNalUnit(e.p, e.n, &s2, o);
    int got = n ? present(n->nal_unit_payload.get()) : 0;
    bool moved = refs->vps != s2.vps || refs->sps != s2.sps || refs->pps != s2.pps;
    c.count(got ? "damaged units with a result" : "damaged units without a result");
    if (!(got & 7) && (moved || dump_state(s2) != before)) c.violation("unit without parameter set changed the state", hex(m, 400));
    if ((got & 7) && n) {
      // exactly the one set it carried may have changed
      auto* p = n->nal_unit_payload.get();
      auto chk = [&](auto& was, auto& is, auto& set, uint32_t id) {
        auto want = was;
        want[id] = set;
        return want == is;
      };
      bool ok = true;
      if (p->vps) ok = chk(refs->vps, s2.vps, p->vps, p->vps->vps_video_parameter_set_id) && refs->sps == s2.sps && refs->pps == s2.pps;
      if (p->sps) ok = chk(refs->sps, s2.sps, p->sps, p->sps->sps_seq_parameter_set_id) && refs->vps == s2.vps && refs->pps == s2.pps;
      if (p->pps) ok = chk(refs->pps, s2.pps, p->pps, p->pps->pps_pic_parameter_set_id) && refs->vps == s2.vps && refs->sps == s2.sps;
      if (!ok) c.violation("a set changed another entry", hex(m, 400));
      // objects that were already there keep their contents
      PState old;
      old.vps = refs->vps; old.sps = refs->sps; old.pps = refs->pps;
      if (dump_state(old) != before) c.violation("an older set was modified in place", hex(m, 400));
    }
  }
  c.sample(describe(bad));
}

VH_MODE(H04, 3000, 200000, "one set of results held across later parsing and destruction; distinct by the units") {
  Gen g(c.r);
  tune(c, g.o);
  auto st = std::make_unique<PState>();
  std::vector<Fed> fed;
  std::vector<std::vector<Unit>> us;
  std::vector<std::string> was;
  std::vector<std::shared_ptr<Vps>> hv;
  std::vector<std::shared_ptr<Sps>> hs;
  std::vector<std::shared_ptr<Pps>> hp;
  std::vector<std::string> hold;
  auto show = [&](const Fed& f) {
    std::string s;
    for (auto& it : f.items) if (it.h && it.p) s += dump(*it.p, it.h->nal_unit_type, opts_all()) + "\n";
    for (auto& x : f.streams) if (x) s += dump(*x);
    for (auto& x : f.nals) if (x) s += dump(*x, opts_all());
    for (auto& x : f.rtps) if (x) s += capture([&](FILE* fp) { x->fdump(fp, 0, opts_all()); });
    for (auto& x : f.boxes) if (x) s += capture([&](FILE* fp) { x->fdump(fp, 0, opts_all()); });
    return s;
  };
  std::string hist;
  size_t steps = 2 + (size_t)c.r.below(4);
  for (size_t k = 0; k < steps; k++) {
    us.push_back(g.stream(2 + (size_t)c.r.below(4), 0.1));
    Route rt = pick_route(c.r, us.back());
    hist += fmt(" | %s:", kRoute[rt]) + hex_units(us.back());
    c.note(hist);
    fed.push_back(feed(c.r, rt, us.back(), st.get(), opts_from((uint32_t)c.r.below(32))));   // the input is freed here
    was.push_back(show(fed.back()));
    // sets taken from the state, also ones replaced later
    for (auto& kv : st->vps) hv.push_back(kv.second);
    for (auto& kv : st->sps) hs.push_back(kv.second);
    for (auto& kv : st->pps) hp.push_back(kv.second);
    c.count(std::string("results held, ") + kRoute[rt]);
  }
  auto sets = [&] {
    std::string s;
    auto o = opts_all();
    for (auto& x : hv) s += capture([&](FILE* f) { x->fdump(f, -1); });
    for (auto& x : hs) s += capture([&](FILE* f) { x->fdump(f, -1, o); });
    for (auto& x : hp) s += capture([&](FILE* f) { x->fdump(f, -1); });
    return s;
  };
  std::string sets_were = sets();
  auto check = [&](const char* when) {
    for (size_t k = 0; k < fed.size(); k++) {
      if (show(fed[k]) != was[k]) c.violation(std::string("result changed after ") + when, fmt("result %zu: %s", k, describe(us[k]).c_str()));
      for (size_t i = 0; i < fed[k].items.size() && i < us[k].size() && fed[k].items.size() == us[k].size(); i++) {
        std::string key, d = cmp_payload(us[k][i], fed[k].items[i].p, &key);
        if (!d.empty()) c.violation(std::string("result value changed after ") + when + ": " + key, d);
      }
      c.count(std::string("results re-read after ") + when);
    }
    if (sets() != sets_were) c.violation(std::string("parameter set changed after ") + when, describe(us.back()));
  };
  uint64_t h = 3;
  for (auto& u : us) h = mix(h, hash_units(u));
  c.eval(h);
  // every id is overwritten
  Gen g2(c.r);
  tune(c, g2.o);
  g2.o.pin["scaling_list_enabled_flag"] = 0;
  std::vector<Unit> over;
  for (auto& kv : g.vps) { g2.o.pin["vps_video_parameter_set_id"] = kv.first; over.push_back(g2.make_vps()); }
  for (auto& kv : g.sps) { g2.o.pin["sps_seq_parameter_set_id"] = kv.first; over.push_back(g2.make_sps()); }
  for (auto& kv : g.pps) { g2.o.pin["pps_pic_parameter_set_id"] = kv.first; over.push_back(g2.make_pps()); }
  for (int i = 0; i < 3; i++) over.push_back(g2.make_slice());
  { Fed f = feed(c.r, R_STREAM, over, st.get(), opts_all()); }
  check("the sets were replaced");
  if (c.r.chance(0.5)) { st->vps.clear(); st->sps.clear(); st->pps.clear(); check("the state was cleared"); }
  st.reset();
  check("the state was destroyed");
  // destroy some results, read the others
  while (fed.size() > 1) {
    size_t k = (size_t)c.r.below(fed.size());
    fed.erase(fed.begin() + (long)k);
    was.erase(was.begin() + (long)k);
    us.erase(us.begin() + (long)k);
  }
  check("other results were destroyed");
  hv.clear(); hs.clear(); hp.clear();
  sets_were = sets();
  check("the held sets were released");
  c.sample(describe(us[0]));
}
}  // namespace vh
