// R04: the same inputs parsed over differently filled heap and stack memory.  The driver also runs the same cases with a
// library whose uninitialised local variables start from another value, and compares the digests of all results.
#include <alloca.h>
#include <stdlib.h>
#include <string.h>

#include <new>

#include "deep.h"
#include "hostile.h"

static uint8_t g_fill[8];
static bool g_on = false;
static bool g_nofill = false;
static uint64_t g_filled = 0;

static void fill(void* p, size_t n) {
  uint8_t* b = (uint8_t*)p;
  for (size_t i = 0; i < n; i++) b[i] = g_fill[i & 7];
}
void* operator new(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (g_on && !g_nofill) { fill(p, n); g_filled += n; }
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); if (p && g_on && !g_nofill) fill(p, n); return p; }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

namespace vh {

static void __attribute__((noinline)) smear() {
  const size_t n = 96 * 1024;
  volatile uint8_t* b = (volatile uint8_t*)alloca(n);
  for (size_t i = 0; i < n; i++) b[i] = g_fill[i & 7];
}

struct Job {
  int what = 0;
  Bytes b;
  long width = -1;
  uint32_t opts = 0, type = 0, a1 = 0, a2 = 0;
};
static std::string perform(const Job& s, PState* st) {
  ParsingOptions po = opts_from(s.opts);
  std::string t;
  const uint8_t* p = s.b.data();
  size_t n = s.b.size();
  auto on = [] { if (!g_nofill) smear(); g_on = true; };
  auto off = [] { g_on = false; };
  switch (s.what) {
    case 0: { on(); auto r = H265BitstreamParser::ParseBitstream(p, n, st, po); off(); if (r) { t += deep(*r); smear(); t += dump(*r); } break; }
    case 1: { on(); auto r = H265BitstreamParser::ParseBitstreamNALULength(p, n, (size_t)s.width, st, po); off(); if (r) { t += deep(*r); smear(); t += dump(*r); } break; }
    case 2: { on(); auto r = H265NalUnitParser::ParseNalUnit(p, n, st, po); off(); if (r) { t += deep(*r); smear(); t += dump(*r, po); } break; }
    case 3: { on(); auto r = H265NalUnitPayloadParser::ParseNalUnitPayload(p, n, s.type, st); off(); if (r) { t += deep(*r); smear(); t += dump(*r, s.type, po); } break; }
    case 4: {
      on();
      auto r = H265RtpParser::ParseRtp(p, n, st);
      off();
      if (r) { t += deep(*r); smear(); t += capture([&](FILE* f) { r->fdump(f, -1, po); }); }
      on();
      auto q = H265Utils::GetSliceQpY(r, st);
      off();
      if (q) t += fmt(" qp %d", *q);
      break;
    }
    case 5: {
      on();
      auto r = H265ConfigurationBoxParser::ParseConfigurationBox(p, n, st, po);
      off();
      if (r) { t += deep(*r); smear(); t += capture([&](FILE* f) { r->fdump(f, -1, po); }); }
      break;
    }
    case 6: { on(); auto q = H265Utils::GetSliceQpY(p, n, st); off(); for (int x : q) t += fmt(" %d", x); break; }
    case 7: {   // sequence parameter set and what is derived from it
      on();
      auto r = H265SpsParser::ParseSps(p, n);
      off();
      if (r) {
        int w = -1, h = -1;
        uint32_t m = 0;
        bool k = r->getMaxNumNegativePics(&m);
        int rc = r->getResolution(&w, &h);
        t += deep(*r) + fmt("%d %u %d", (int)k, k ? m : 0, rc);
        if (rc == 0) t += fmt(" %d %d", w, h);
        t += fmt(" %u %u %u %u %u", r->getPicSizeInMinCbsY(), r->getPicSizeInCtbsY(), r->getPicSizeInSamplesY(), r->getCtbSizeY(), r->getMinCbSizeY());
        if (r->vui_parameters) t += fmt(" %a", (double)r->vui_parameters->getFramerate());
      }
      break;
    }
    case 8: { on(); auto r = H265PpsParser::ParsePps(p, n); off(); if (r) t += deep(*r); break; }
    case 9: { on(); auto r = H265VpsParser::ParseVps(p, n); off(); if (r) t += deep(*r); break; }
    case 10: { on(); auto r = H265SeiMessageParser::ParseSei(p, n); off(); if (r) t += deep(*r); break; }
  }
  return t;
}

VH_MODE(R04, 6000, 500000, "one input parsed over several memory contents; distinct by its bytes") {
  g_nofill = getenv("VH_NOFILL") != nullptr;
  Hostile h(c.r);
  PState first;
  std::vector<Job> jobs;
  std::vector<std::string> res;
  memset(g_fill, 0, 8);
  for (int k = 1 + (int)c.r.below(5); k; k--) {
    Job s;
    s.what = (int)c.r.below(12) % 11;
    if (c.r.chance(0.3)) s.what = 0;
    s.opts = (uint32_t)c.r.below(32);
    s.type = h.nut();
    if (c.r.chance(0.5)) h.level = c.r.chance(0.5) ? 0 : 0.003;
    switch (s.what) {
      case 0: case 6: s.width = -1; s.b = h.stream(&first, &s.width); break;
      case 1: s.width = (long)c.r.below(6); s.b = h.stream(&first, &s.width); break;
      case 2: s.b = h.unit(&first); break;
      case 3: s.b = h.payload(s.type, &first); break;
      case 4: s.b = h.rtp(&first); break;
      case 5: s.b = h.hvcc(&first); break;
      case 7: s.b = h.structure(S_SPS, &first); break;
      case 8: s.b = h.structure(S_PPS, &first); break;
      case 9: s.b = h.structure(S_VPS, &first); break;
      case 10: s.b = h.structure(S_SEI, &first); break;
    }
    c.note(fmt("entry %d width %ld options %u type %u input ", s.what, s.width, s.opts, s.type) + hex(s.b, 60000));
    c.eval(hash_bytes(s.b, (uint64_t)s.what));
    res.push_back(perform(s, &first));
    c.digest(res.back());
    if (res.back().size() > 200) c.count("results with contents");
    jobs.push_back(s);
  }
  std::string after = deep(first);
  if (g_nofill) return;
  static const uint8_t pat[][8] = {{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {1, 0, 0, 0, 1, 0, 0, 0}, {0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5},
                                   {2, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0x80, 0, 0, 0, 0x80}};
  for (int t = 0; t < 3; t++) {
    if (t == 0) memcpy(g_fill, pat[0], 8);
    else if (t == 1) memcpy(g_fill, pat[1 + c.r.below(4)], 8);
    else { Bytes x = c.r.bytes(8); memcpy(g_fill, x.data(), 8); }
    PState st;
    for (size_t i = 0; i < jobs.size(); i++) {
      std::string fl;
      for (uint8_t x : g_fill) fl += fmt("%02x", x);
      c.note(fmt("over %s: entry %d width %ld options %u type %u input ", fl.c_str(), jobs[i].what, jobs[i].width, jobs[i].opts, jobs[i].type) + hex(jobs[i].b, 60000));
      std::string r = perform(jobs[i], &st);
      c.count("comparisons over another memory content");
      if (r != res[i]) {
        std::string key, d = deep_diff(res[i], r, &key);
        size_t dot = key.rfind('.');
        if (key.size() > 80) key = "dump";
        else if (dot != std::string::npos) key = key.substr(dot + 1);
        c.violation("depends on unwritten memory: " + key, d.substr(0, 800));
        return;
      }
    }
    std::string a2 = deep(st);
    if (a2 != after) { std::string key, d = deep_diff(after, a2, &key); c.violation("state depends on unwritten memory", d.substr(0, 800)); return; }
  }
  c.count("bytes of heap filled", g_filled);
  g_filled = 0;
}
}  // namespace vh
