// R05: executed control-flow edges, heap use and dump size, each against a fixed multiple of the input length.
// R08: what the library allocated and opened is released with its results and the parser state.
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <new>

#include "hostile.h"

// ---- counters kept by the instrumented library
static uint64_t g_steps = 0, g_step_limit = UINT64_MAX;
static uint64_t g_edges = 0, g_edges_seen = 0;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
  if (a == b || *a) return;
  for (; a < b; a++) { *a = 1; g_edges++; }
}
static void stop(const char* what) {
  char m[128];
  int n = snprintf(m, sizeof m, "VH-WORK-LIMIT %s\n", what);
  ssize_t x = write(2, m, (size_t)n);
  (void)x;
  _exit(96);
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
  if (*g == 1) { *g = 2; g_edges_seen++; }
  if (++g_steps > g_step_limit) { g_step_limit = UINT64_MAX; stop("steps"); }
}

static bool g_on = false;
static int64_t g_live = 0, g_peak = 0, g_heap_limit = INT64_MAX;
static uint64_t g_allocs = 0, g_total = 0;
static const size_t kHead = 16;
void* operator new(size_t n) {
  if (g_on && (int64_t)n > g_heap_limit - g_live) stop("heap");
  uint8_t* p = (uint8_t*)malloc(n + kHead);
  if (!p) stop("heap");
  ((uint64_t*)p)[0] = n;
  ((uint64_t*)p)[1] = g_on;
  if (g_on) { g_live += (int64_t)n; g_peak = std::max(g_peak, g_live); g_allocs++; g_total += n; }
  return p + kHead;
}
static void drop(void* q) {
  if (!q) return;
  uint8_t* p = (uint8_t*)q - kHead;
  if (((uint64_t*)p)[1]) g_live -= (int64_t)((uint64_t*)p)[0];
  free(p);
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }

// what the library moves, which the step counter does not see
static uint64_t g_moved = 0;
extern "C" void* memcpy(void* d, const void* s, size_t n) {
  if (g_on) g_moved += n;
  void* r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
extern "C" void* memmove(void* d, const void* s, size_t n) {
  if (g_on) g_moved += n;
  void* r = d;
  if ((uintptr_t)d - (uintptr_t)s >= n) {
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else {
    d = (char*)d + n - 1;
    s = (const char*)s + n - 1;
    asm volatile("std\n\trep movsb\n\tcld" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  }
  return r;
}
extern "C" void* memset(void* d, int v, size_t n) {
  if (g_on) g_moved += n;
  void* r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
  return r;
}

namespace vh {

// Bounds: value <= A * length + B.  Chosen well above what the unchanged tree needs (see DESIGN.md); a loop or an
// allocation driven by a 16- or 32-bit field value exceeds them by orders of magnitude.
struct Bound { const char* what; uint64_t a, b; };
static const Bound kSteps = {"steps", 1500, 60000};
static const Bound kHeap = {"heap", 1200, 80000};
static const Bound kTotal = {"bytes allocated in all", 1000, 160000};
static const Bound kMoved = {"bytes moved", 700, 160000};
static const Bound kDump = {"dump", 1500, 30000};

struct Meter {
  Ctx& c;
  size_t len;
  uint64_t s0, t0, m0;
  Meter(Ctx& cc, size_t n) : c(cc), len(n), s0(g_steps), t0(g_total), m0(g_moved) {
    g_step_limit = g_steps + 20 * (kSteps.a * n + kSteps.b);
    g_heap_limit = g_live + 20 * (int64_t)(kHeap.a * n + kHeap.b);
    g_peak = g_live;
    g_on = true;
  }
  void check(const Bound& b, const char* entry, uint64_t v) {
    c.maximum(fmt("%s of %s beyond %llu, per byte", b.what, entry, (unsigned long long)b.b), v > b.b ? (v - b.b) / std::max<size_t>(len, 1) : 0);
    c.maximum(fmt("%s of %s on inputs below 64 bytes", b.what, entry), len < 64 ? v : 0);
    if (len >= 1000) c.maximum(fmt("%s of %s per byte on inputs of 1000 bytes or more", b.what, entry), v / len);
    if (v > b.a * len + b.b) c.violation(fmt("%s of %s", b.what, entry), fmt("%llu for %zu bytes", (unsigned long long)v, len));
  }
  void end(const char* entry, int64_t live0) {
    g_on = false;
    g_step_limit = UINT64_MAX;
    g_heap_limit = INT64_MAX;
    check(kSteps, entry, g_steps - s0);
    check(kHeap, entry, (uint64_t)(g_peak - live0));
    check(kTotal, entry, g_total - t0);
    check(kMoved, entry, g_moved - m0);
  }
};

struct Job {
  int what = 0;
  Bytes b;
  long width = -1;
  uint32_t opts = 0, type = 0;
};
static const char* const kEntry[] = {"streams", "length-prefixed streams", "units", "payloads", "RTP packets", "configuration boxes", "quantiser queries",
                                     "SPS", "PPS", "VPS", "SEI", "aggregation packets", "fragmentation packets"};
static volatile size_t g_sink;

// parse under the meter, then dump under it too; the result is released at the end
#define RUN(call, show)                                                        \
  {                                                                            \
    Meter m(c, n);                                                             \
    auto r = call;                                                             \
    m.end(kEntry[s.what], live0);                                              \
    if (r) {                                                                   \
      c.count(std::string("results of ") + kEntry[s.what]);                    \
      Meter d(c, n);                                                           \
      g_on = false;                                                            \
      std::string t = show;                                                    \
      d.len = n;                                                               \
      g_step_limit = UINT64_MAX;                                               \
      g_heap_limit = INT64_MAX;                                                \
      d.check(kSteps, "dumps", g_steps - d.s0);                                \
      d.check(kDump, kEntry[s.what], t.size());                                \
    }                                                                          \
  }
static void perform(Ctx& c, const Job& s, PState* st) {
  ParsingOptions po = opts_from(s.opts);
  Exact ex(s.b);
  const uint8_t* p = ex.p;
  size_t n = ex.n;
  int64_t live0 = g_live;
  switch (s.what) {
    case 0: RUN(H265BitstreamParser::ParseBitstream(p, n, st, po), dump(*r)); break;
    case 1: RUN(H265BitstreamParser::ParseBitstreamNALULength(p, n, (size_t)s.width, st, po), dump(*r)); break;
    case 2: RUN(H265NalUnitParser::ParseNalUnit(p, n, st, po), dump(*r, po)); break;
    case 3: RUN(H265NalUnitPayloadParser::ParseNalUnitPayload(p, n, s.type, st), dump(*r, s.type, po)); break;
    case 4: RUN(H265RtpParser::ParseRtp(p, n, st), capture([&](FILE* f) { r->fdump(f, -1, po); })); break;
    case 5: RUN(H265ConfigurationBoxParser::ParseConfigurationBox(p, n, st, po), capture([&](FILE* f) { r->fdump(f, -1, po); })); break;
    case 6: { Meter m(c, n); size_t k = H265Utils::GetSliceQpY(p, n, st).size(); m.end(kEntry[6], live0); g_sink = k; break; }
    case 7: RUN(H265SpsParser::ParseSps(p, n), capture([&](FILE* f) { r->fdump(f, -1, po); })); break;
    case 8: RUN(H265PpsParser::ParsePps(p, n), capture([&](FILE* f) { r->fdump(f, -1); })); break;
    case 9: RUN(H265VpsParser::ParseVps(p, n), capture([&](FILE* f) { r->fdump(f, -1); })); break;
    case 10: RUN(H265SeiMessageParser::ParseSei(p, n), capture([&](FILE* f) { r->fdump(f, -1); })); break;
    case 11: RUN(H265RtpApParser::ParseRtpAp(p, n, st), capture([&](FILE* f) { r->fdump(f, -1, po); })); break;
    case 12: RUN(H265RtpFuParser::ParseRtpFu(p, n, st), capture([&](FILE* f) { r->fdump(f, -1, po); })); break;
  }
}
static int64_t big(Rng& r) {
  static const int64_t v[] = {0xFFFFFFFEll, 0x7FFFFFFFll, 0x80000000ll, 0xFFFFFFFDll, 65535, 65536, 1 << 20, 1 << 24, 255, 256, 4095, 1000, 100000000};
  return r.chance(0.85) ? v[r.below(13)] : (int64_t)r.logbelow(0xFFFFFFFFull);
}
// long inputs built of one repeated piece
static Bytes repeated(Rng& r, Hostile& h, PState* st, size_t n) {
  static const char* const pieces[] = {"00", "ff", "000001", "00000001", "000003", "0000000100", "00000140", "000001420101", "0000014e01ff", "0001ff", "0100", "00004e01ff", "000003000003", "00000100",
                                       "0000012601", "0001", "00024e01", "0003000000", "80", "a0", "55"};
  Bytes p = r.chance(0.6) ? unhex(pieces[r.below(21)]) : h.unit(st);
  Bytes b;
  if (r.chance(0.4)) b = h.unit(st);
  if (r.chance(0.5)) { Bytes sc = unhex("000001"); b.insert(b.end(), sc.begin(), sc.end()); }
  if (p.empty()) p.push_back(0);
  bool sc = p.size() > 4 && r.chance(0.5);
  while (b.size() < n) {
    if (sc) { b.push_back(0); b.push_back(0); b.push_back(1); }
    b.insert(b.end(), p.begin(), p.end());
  }
  return b;
}

static void choose(Job& s, Hostile& h, PState& st, Rng& r) {
  s.what = r.chance(0.4) ? 0 : (int)r.below(13);
  s.opts = (uint32_t)r.below(32);
  s.type = h.nut();
  switch (s.what) {
    case 0: case 6: s.b = h.stream(&st, &s.width); break;
    case 1: s.width = (long)r.below(6); s.b = h.stream(&st, &s.width); break;
    case 2: s.b = h.unit(&st); break;
    case 3: s.b = h.payload(s.type, &st); break;
    case 4: case 11: case 12: s.b = h.rtp(&st); break;
    case 5: s.b = h.hvcc(&st); break;
    case 7: s.b = h.structure(S_SPS, &st); break;
    case 8: s.b = h.structure(S_PPS, &st); break;
    case 9: s.b = h.structure(S_VPS, &st); break;
    case 10: s.b = h.structure(S_SEI, &st); break;
  }
}

// A body that must release everything.  A table that the library sets up once, on its first use, is not a leak: only
// what stays behind again when the same body is repeated counts, or what stays behind in very many different cases.
template <class F> static void balanced(Ctx& c, F body) {
  static uint64_t uneven = 0;
  Rng save = c.r;
  int64_t before = g_live;
  body();
  c.count("cases whose heap was balanced at the end");
  if (g_live == before) return;
  int64_t first = g_live - before, again = 0;
  for (int k = 0; k < 2; k++) {
    c.r = save;
    before = g_live;
    body();
    again = g_live - before;
    if (again == 0) break;
  }
  if (again != 0) c.violation("heap not released", fmt("%lld bytes still allocated after results and state were destroyed, and again each time", (long long)again));
  else if (++uneven > 60) c.violation("heap keeps growing", fmt("%llu different inputs left memory behind, this one %lld bytes", (unsigned long long)uneven, (long long)first));
}

VH_MODE(R05, 24000, 1500000, "one input whose steps, heap and dump size are measured; distinct by its bytes") {
  balanced(c, [&] {
    Hostile h(c.r);
    Rng& r = c.r;
    PState st;
    for (int k = 2 + (int)r.below(6); k; k--) {
      Job s;
      h.retune();
      h.force_idx = -1;
      h.pad = 0;
      if (r.chance(0.5)) {   // one count or size far too large, then enough bits to go on for a while
        h.force_idx = (long)r.logbelow(300);
        h.force_val = big(r);
        h.level = r.chance(0.8) ? 0 : 0.003;
        h.pad = (size_t)r.logbelow(r.chance(0.1) ? 4000 : 300) + 1;
        h.pad_kind = (int)r.below(4);
        c.count("inputs with one element forced to an extreme value");
      }
      choose(s, h, st, r);
      if (r.chance(0.04)) {
        s.b = repeated(r, h, &st, (size_t)r.logbelow(r.chance(0.1) ? 400000 : 20000));
        c.count("long repetitive inputs");
      }
      c.note(fmt("entry %d width %ld options %u type %u input ", s.what, s.width, s.opts, s.type) + hex(s.b, 60000));
      c.eval(hash_bytes(s.b, (uint64_t)s.what));
      c.count("input bytes", s.b.size());
      c.maximum("input bytes", s.b.size());
      perform(c, s, &st);
    }
  });
  c.maximum("control-flow edges in the library", g_edges);
  c.maximum("control-flow edges reached by one process", g_edges_seen);
}

// one call, its dumps and queries, everything allocated meanwhile counted; the result is kept by the caller
template <class T> static std::shared_ptr<void> own(std::unique_ptr<T> p) { return std::shared_ptr<void>(std::move(p)); }
template <class T> static std::shared_ptr<void> own(std::shared_ptr<T> p) { return p; }
#define KEEP(call, show)                                   \
  {                                                        \
    auto r = call;                                         \
    if (r) { c.count(std::string("results of ") + kEntry[s.what]); c.count("dump bytes", (show).size()); } \
    g_on = false;                                          \
    if (r) return own(std::move(r));                       \
  }
static std::shared_ptr<void> hold(Ctx& c, const Job& s, PState* st) {
  ParsingOptions po = opts_from(s.opts);
  Exact ex(s.b);
  const uint8_t* p = ex.p;
  size_t n = ex.n;
  std::string counted = std::string("results of ") + kEntry[s.what];
  c.count(counted, 0);
  c.count("dump bytes", 0);
  g_on = true;
  switch (s.what) {
    case 0: KEEP(H265BitstreamParser::ParseBitstream(p, n, st, po), dump(*r)); break;
    case 1: KEEP(H265BitstreamParser::ParseBitstreamNALULength(p, n, (size_t)s.width, st, po), dump(*r)); break;
    case 2: KEEP(H265NalUnitParser::ParseNalUnit(p, n, st, po), dump(*r, po)); break;
    case 3: KEEP(H265NalUnitPayloadParser::ParseNalUnitPayload(p, n, s.type, st), dump(*r, s.type, po)); break;
    case 4: KEEP(H265RtpParser::ParseRtp(p, n, st), capture([&](FILE* f) { r->fdump(f, -1, po); auto q = H265Utils::GetSliceQpY(r, st); })); break;
    case 5: KEEP(H265ConfigurationBoxParser::ParseConfigurationBox(p, n, st, po), capture([&](FILE* f) { r->fdump(f, -1, po); })); break;
    case 6: { size_t k = H265Utils::GetSliceQpY(p, n, st).size(); g_sink = k; break; }
    case 7: KEEP(H265SpsParser::ParseSps(p, n), capture([&](FILE* f) { r->fdump(f, -1, po); })); break;
    case 8: KEEP(H265PpsParser::ParsePps(p, n), capture([&](FILE* f) { r->fdump(f, -1); })); break;
    case 9: KEEP(H265VpsParser::ParseVps(p, n), capture([&](FILE* f) { r->fdump(f, -1); })); break;
    case 10: KEEP(H265SeiMessageParser::ParseSei(p, n), capture([&](FILE* f) { r->fdump(f, -1); })); break;
    case 11: KEEP(H265RtpApParser::ParseRtpAp(p, n, st), capture([&](FILE* f) { r->fdump(f, -1, po); })); break;
    case 12: KEEP(H265RtpFuParser::ParseRtpFu(p, n, st), capture([&](FILE* f) { r->fdump(f, -1, po); })); break;
  }
  g_on = false;
  return nullptr;
}
static int lowest_fd() { int f = dup(2); close(f); return f; }

VH_MODE(R08, 24000, 1500000, "one history of parsing, dumping and releasing in some order; distinct by its bytes") {
  int fd = lowest_fd();
  balanced(c, [&] {
    Hostile h(c.r);
    Rng& r = c.r;
    // more than one state; the sets they hold may outlive them in results and the other way round
    std::vector<std::unique_ptr<PState>> sts;
    sts.emplace_back(new PState);
    std::vector<std::shared_ptr<void>> held;
    std::vector<std::shared_ptr<Sps>> sets;
    for (int k = 2 + (int)r.below(8); k; k--) {
      PState* st = sts[(size_t)r.below(sts.size())].get();
      Job s;
      h.retune();
      if (r.chance(0.5)) h.level = r.chance(0.7) ? 0 : 0.003;
      choose(s, h, *st, r);
      c.note(fmt("entry %d width %ld options %u type %u input ", s.what, s.width, s.opts, s.type) + hex(s.b, 60000));
      c.eval(hash_bytes(s.b, (uint64_t)s.what));
      auto x = hold(c, s, st);
      if (x && r.chance(0.6)) held.push_back(x);
      x.reset();
      if (r.chance(0.2)) { sts.emplace_back(clone_refs(*st).release()); c.count("states copied"); }
      if (r.chance(0.1) && sts.size() > 1) { sts.erase(sts.begin() + (long)r.below(sts.size())); c.count("states dropped before results"); }
      if (r.chance(0.2) && !held.empty()) { held.erase(held.begin() + (long)r.below(held.size())); c.count("results dropped before the state"); }
      if (r.chance(0.1)) { auto& q = *sts[0]; if (!q.sps.empty()) sets.push_back(q.sps.begin()->second); }
    }
    c.maximum("results held at once", held.size());
    if (r.chance(0.5)) sts.clear();
  });
  // a state that is fed the same again and again holds the same afterwards
  if (c.r.chance(0.25)) {
    Hostile h(c.r);
    PState st;
    int64_t at[7];
    Job s;
    s.what = c.r.chance(0.5) ? 0 : c.r.chance(0.4) ? 5 : 4;
    h.level = c.r.chance(0.7) ? 0 : 0.003;
    s.b = s.what == 0 ? h.stream(&st, &s.width) : s.what == 5 ? h.hvcc(&st) : h.rtp(&st);
    c.note(fmt("again and again: entry %d input ", s.what) + hex(s.b, 60000));
    c.eval(hash_bytes(s.b, 99));
    for (int k = 0; k < 7; k++) { hold(c, s, &st); at[k] = g_live; }
    c.count("inputs repeated on one state");
    if (at[6] > at[4] && at[4] > at[2]) c.violation("heap grows when the same is parsed again", fmt("%lld bytes after 3 rounds, %lld after 5, %lld after 7", (long long)at[2], (long long)at[4], (long long)at[6]));
  }
  // files: whatever happens while reading one, it does not stay open
  if (c.r.chance(0.1)) {
    balanced(c, [&] {
      std::string p = fmt("%s/r08.%d", c.outdir.c_str(), (int)getpid());
      size_t n = c.r.chance(0.2) ? 0 : (size_t)c.r.logbelow(9000);
      FILE* f = fopen(p.c_str(), "wb");
      Bytes b = c.r.bytes(n);
      if (n) fwrite(b.data(), 1, n, f);
      fclose(f);
      std::string name = c.r.chance(0.15) ? c.outdir : c.r.chance(0.1) ? p + ".missing" : p;
      c.note("reading " + name);
      {
        Bytes out;
        g_on = true;
        int e = H265Utils::ReadFile(name.c_str(), out);
        g_on = false;
        c.count(e == 0 ? "files read" : "files that cannot be read");
      }
      unlink(p.c_str());
      if (lowest_fd() != fd) c.violation("file left open", fmt("after reading %zu bytes", n));
    });
  }
  if (lowest_fd() != fd) c.violation("file left open", "a descriptor is still in use after the case");
}
}  // namespace vh
