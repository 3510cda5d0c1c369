// R06: the same bytes in the same state give the same result, wherever the bytes stand and whatever else was parsed.
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include "deep.h"
#include "hostile.h"

namespace vh {

// One placement of the input.
struct Place {
  const uint8_t* p = nullptr;
  size_t n = 0;
  Bytes arena, before;
  void* map = nullptr;
  size_t maplen = 0;
  std::string text;
  Place(Rng& r, const Bytes& b) : n(b.size()) {
    int kind = (int)r.below(4);
    if (kind == 3) {
      // read-only memory; the byte after the input cannot be read
      size_t pg = (size_t)sysconf(_SC_PAGESIZE);
      size_t data = (b.size() + pg - 1) / pg * pg;
      maplen = data + pg;
      map = mmap(nullptr, maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (map == MAP_FAILED) abort();
      uint8_t* q = (uint8_t*)map + data - b.size();
      memset(map, (int)r.below(256), data);
      if (n) memcpy(q, b.data(), b.size());
      mprotect(map, data ? data : pg, PROT_READ);
      if (data) mprotect((uint8_t*)map + data, pg, PROT_NONE);
      p = q;
      text = "read-only, at the end of a page";
    } else {
      size_t at = (size_t)r.below(17);
      arena = r.bytes(at + b.size() + 64);
      // what follows must not matter: zeros, ones, a start code, a continuation
      uint8_t* tail = arena.data() + at + b.size();
      switch (r.below(4)) {
        case 0: memset(tail, 0, 64); break;
        case 1: memset(tail, 0xff, 64); break;
        case 2: { static const uint8_t sc[] = {0, 0, 1, 0x40, 1, 0x0c}; memcpy(tail, sc, 6); break; }
        default: break;
      }
      switch (r.below(3)) {   // nor what precedes
        case 0: memset(arena.data(), 0, at); break;
        case 1: if (at >= 3) memcpy(arena.data() + at - 3, "\0\0\1", 3); break;
        default: break;
      }
      if (n) memcpy(arena.data() + at, b.data(), b.size());
      before = arena;
      p = arena.data() + at;
      text = fmt("offset %zu in a larger buffer", at);
    }
  }
  bool changed() const { return arena != before; }
  ~Place() { if (map) munmap(map, maplen); }
  Place(const Place&) = delete;
};

struct Step {
  int what = 0;       // which entry point
  Bytes b;
  long width = -1;
  uint32_t opts = 0, type = 0;
};
static Step make_step(Ctx& c, Hostile& h, const PState* st) {
  Step s;
  s.what = (int)c.r.below(9);
  if (s.what > 6) s.what = 0;
  s.opts = (uint32_t)c.r.below(32);
  s.type = h.nut();
  if (c.r.chance(0.5)) h.level = c.r.chance(0.5) ? 0 : 0.003;
  switch (s.what) {
    case 0: s.width = -1; s.b = h.stream(st, &s.width); break;
    case 1: s.width = (long)c.r.below(6); s.b = h.stream(st, &s.width); break;
    case 2: s.b = h.unit(st); break;
    case 3: s.b = h.payload(s.type, st); break;
    case 4: s.b = h.rtp(st); break;
    case 5: s.b = h.hvcc(st); break;
    case 6: s.width = -1; s.b = h.stream(st, &s.width); break;
  }
  return s;
}
// everything a caller can see of one step's result
static std::string perform(const Step& s, const uint8_t* p, size_t n, PState* st) {
  ParsingOptions po = opts_from(s.opts);
  std::string t = fmt("%d: ", s.what);
  switch (s.what) {
    case 0: { auto r = H265BitstreamParser::ParseBitstream(p, n, st, po); t += r ? dump(*r) + deep(*r) : "none"; break; }
    case 1: { auto r = H265BitstreamParser::ParseBitstreamNALULength(p, n, (size_t)s.width, st, po); t += r ? dump(*r) + deep(*r) : "none"; break; }
    case 2: { auto r = H265NalUnitParser::ParseNalUnit(p, n, st, po); t += r ? dump(*r, po) + deep(*r) : "none"; break; }
    case 3: { auto r = H265NalUnitPayloadParser::ParseNalUnitPayload(p, n, s.type, st); t += r ? dump(*r, s.type, po) + deep(*r) : "none"; break; }
    case 4: {
      auto r = H265RtpParser::ParseRtp(p, n, st);
      t += r ? capture([&](FILE* f) { r->fdump(f, -1, po); }) + deep(*r) : "none";
      auto q = H265Utils::GetSliceQpY(r, st);
      t += q ? fmt(" qp %d", *q) : " no qp";
      break;
    }
    case 5: { auto r = H265ConfigurationBoxParser::ParseConfigurationBox(p, n, st, po); t += r ? capture([&](FILE* f) { r->fdump(f, -1, po); }) + deep(*r) : "none"; break; }
    case 6: for (int q : H265Utils::GetSliceQpY(p, n, st)) t += fmt(" %d", q); break;
  }
  return t;
}
static std::string where(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t f = i > 80 ? i - 80 : 0;
  return fmt("at %zu: \"%s\" / \"%s\"", i, a.substr(f, 160).c_str(), b.substr(f, 160).c_str());
}

// Histories run when the process was fresh, to be run again much later: nothing may have built up meanwhile.
struct Sentinel { std::vector<Step> steps; std::string text; };
static std::string run_all(const std::vector<Step>& steps) {
  PState st;
  std::string t;
  for (const Step& s : steps) { Exact e(s.b); t += perform(s, e.p, e.n, &st) + "\n"; }
  return t + deep(st);
}
static void sentinels(Ctx& c) {
  static std::vector<Sentinel> pool;
  static uint64_t calls = 0;
  Rng save = c.r;
  if (pool.empty()) {
    c.r = Rng(mix(c.seed, 0x5e47));
    for (int i = 0; i < 240; i++) {
      Sentinel s;
      PState st;
      Hostile h(c.r);
      for (int k = 1 + (int)c.r.below(4); k; k--) {
        Step x = make_step(c, h, &st);
        if (i % 2) {   // payloads of each type
          static const uint8_t types[] = {32, 33, 34, 35, 39, 40, 39, 0, 1, 19, 21};
          h.level = c.r.chance(0.5) ? 0 : 0.01;
          x.what = 3;
          x.type = types[c.r.below(11)];
          x.b = h.payload(x.type, &st);
        }
        if (x.b.size() > 20000) continue;
        Exact e(x.b);
        c.note(fmt("sentinel %d entry %d width %ld options %u type %u input ", i, x.what, x.width, x.opts, x.type) + hex(x.b, 60000));
        perform(x, e.p, e.n, &st);
        s.steps.push_back(x);
      }
      s.text = run_all(s.steps);
      pool.push_back(s);
    }
    if (c.only_case >= 0) {   // a replay has no long past; give it one
      PState st;
      Hostile h(c.r);
      for (int k = 0; k < 3000; k++) { Step x = make_step(c, h, &st); Exact e(x.b); perform(x, e.p, e.n, &st); }
    }
  }
  c.r = save;
  calls++;
  for (size_t k = c.only_case >= 0 ? pool.size() : 4; k; k--) {
    size_t i = c.only_case >= 0 ? k - 1 : (size_t)c.r.below(pool.size());
    c.note(fmt("history %zu of the first case again, after %llu cases", i, (unsigned long long)calls));
    std::string t = run_all(pool[i].steps);
    c.count("histories of a fresh process run again later");
    c.maximum("cases between a history and its repetition", calls);
    if (t != pool[i].text) { c.violation("result differs later in the process", where(pool[i].text, t)); return; }
  }
}

VH_MODE(R06, 4000, 700000, "one input parsed several times; distinct by its bytes") {
  sentinels(c);
  Hostile h(c.r);
  PState first;
  std::vector<Step> steps;
  std::vector<std::string> res;
  std::vector<std::unique_ptr<PState>> at;   // the state before each step
  std::string state_after;
  for (int k = 1 + (int)c.r.below(5); k; k--) {
    Step s = make_step(c, h, &first);
    at.push_back(clone_refs(first));
    c.note(fmt("step %zu entry %d width %ld options %u type %u input ", steps.size(), s.what, s.width, s.opts, s.type) + hex(s.b, 60000));
    c.eval(hash_bytes(s.b, (uint64_t)s.what));
    Exact e(s.b);
    res.push_back(perform(s, e.p, e.n, &first));
    if (s.b.size() && memcmp(e.p, s.b.data(), s.b.size()) != 0) c.violation("input modified", fmt("entry %d", s.what));
    if (res.back().size() > 200) c.count("results with contents");
    steps.push_back(s);
  }
  state_after = deep(first);
  // the history again, elsewhere in memory, with other parses in between
  PState second, foreign;
  Hostile f(c.r);
  for (size_t i = 0; i < steps.size(); i++) {
    for (uint64_t k = c.r.below(3); k; k--) {
      Step x = c.r.chance(0.3) ? steps[c.r.below(steps.size())] : make_step(c, f, &foreign);
      c.note(fmt("foreign entry %d width %ld input ", x.what, x.width) + hex(x.b, 60000));
      Exact e(x.b);
      perform(x, e.p, e.n, &foreign);
      c.count("foreign parses in between");
    }
    Place p(c.r, steps[i].b);
    c.note(fmt("again, %s: step %zu entry %d width %ld input ", p.text.c_str(), i, steps[i].what, steps[i].width) + hex(steps[i].b, 60000));
    std::string t = perform(steps[i], p.p, p.n, &second);
    c.count("repetitions " + std::string(p.map ? "in read-only memory" : "at another address"));
    if (t != res[i]) { c.violation("result differs when repeated", p.text + ": " + where(res[i], t)); return; }
    if (p.changed()) { c.violation("input or its surroundings modified", p.text); return; }
  }
  if (deep(second) != state_after) { c.violation("state differs when repeated", where(state_after, deep(second))); return; }
  // one step from a state holding the same sets
  size_t i = (size_t)c.r.below(steps.size());
  {
    Place p(c.r, steps[i].b);
    c.note(fmt("from an equal state, %s: step %zu entry %d input ", p.text.c_str(), i, steps[i].what) + hex(steps[i].b, 60000));
    std::string t = perform(steps[i], p.p, p.n, at[i].get());
    c.count("repetitions from an equal state");
    if (t != res[i]) { c.violation("result differs from an equal state", where(res[i], t)); return; }
    if (p.changed()) { c.violation("input or its surroundings modified", p.text); return; }
  }
}
}  // namespace vh

// O06: the options choose what is computed and shown, never what is parsed.
namespace vh {

template <class L> static void settle(L& units, const ParsingOptions& both, std::vector<std::string>* sums) {
  for (auto& u : units) {
    if (!u) continue;
    sums->push_back(u->checksum ? u->checksum->GetPrintableChecksum() : "");
    u->checksum.reset();
    // what is claimed of these only where both asked for them
    if (!both.add_offset) u->offset = 0;
    if (!both.add_length) u->length = 0;
    if (!both.add_parsed_length) u->parsed_length = 0;
  }
}
struct Seen { std::string text, shown; std::vector<std::string> sums; };
static Seen look(const Step& s, const uint8_t* p, size_t n, PState* st, const ParsingOptions& po, const ParsingOptions& both) {
  Seen v;
  std::unique_ptr<Nal> one;
  auto done = [&](const char* none) { if (v.text.empty()) v.text = none; };
  switch (s.what) {
    case 0: case 1: case 6: {
      auto r = s.what == 1 ? H265BitstreamParser::ParseBitstreamNALULength(p, n, (size_t)s.width, st, po) : H265BitstreamParser::ParseBitstream(p, n, st, po);
      if (!r) break;
      settle(r->nal_units, both, &v.sums);
      for (auto& u : r->nal_units) v.text += u ? deep(*u) + "\n" : "nothing\n";   // the stream keeps the options themselves
      for (auto& u : r->nal_units) if (u) v.shown += dump(*u, both);
      break;
    }
    case 5: {
      auto r = H265ConfigurationBoxParser::ParseConfigurationBox(p, n, st, po);
      if (!r) break;
      for (auto& a : r->nalUnit) settle(a, both, &v.sums);
      v.text = deep(*r);
      v.shown = capture([&](FILE* f) { r->fdump(f, -1, both); });
      break;
    }
    default: {
      auto r = s.what == 4 ? H265NalUnitParser::ParseNalUnitUnescaped(p, n, st, po) : H265NalUnitParser::ParseNalUnit(p, n, st, po);
      if (!r) break;
      std::vector<Nal*> l = {r.get()};
      settle(l, both, &v.sums);
      v.text = deep(*r);
      v.shown = dump(*r, both);
      break;
    }
  }
  done("none");
  return v;
}

VH_MODE(O06, 8000, 600000, "one history parsed under two sets of options; distinct by its bytes and both sets") {
  Hostile h(c.r);
  PState a, b;
  for (int k = 1 + (int)c.r.below(4); k; k--) {
    Step s = make_step(c, h, &a);
    if (s.what == 4 || s.what == 3) s.b = h.unit(&a);
    uint32_t oa = s.opts, ob = (uint32_t)c.r.below(32);
    if (c.r.chance(0.5)) ob = oa ^ (1u << c.r.below(5));
    if (oa == ob) ob ^= 31;
    ParsingOptions pa = opts_from(oa), pb = opts_from(ob), both = opts_from(oa & ob);
    both.add_checksum = false;
    c.note(fmt("entry %d width %ld options %u and %u input ", s.what, s.width, oa, ob) + hex(s.b, 60000));
    c.eval(mix(hash_bytes(s.b, (uint64_t)s.what), oa * 32 + ob));
    Exact e(s.b);
    Seen x = look(s, e.p, e.n, &a, pa, both), y = look(s, e.p, e.n, &b, pb, both);
    c.count("histories under two sets of options");
    if (x.text.size() > 200) c.count("results with contents");
    if (x.text != y.text) { std::string key, d = deep_diff(x.text, y.text, &key); c.violation("value depends on an option", d.substr(0, 600)); return; }
    if (x.shown != y.shown) { c.violation("dump depends on the options of the parse", where(x.shown, y.shown)); return; }
    if (pa.add_checksum && pb.add_checksum && x.sums != y.sums) { c.violation("checksum depends on another option", ""); return; }
    for (auto& t : x.sums) if (pa.add_checksum == t.empty()) { c.violation(pa.add_checksum ? "checksum missing" : "checksum not asked for", t); return; }
  }
  std::string sa = deep(a), sb = deep(b);
  if (sa != sb) { std::string key, d = deep_diff(sa, sb, &key); c.violation("parser state depends on an option", d.substr(0, 600)); }
}

}  // namespace vh
