// R07: several threads, each with its own parser state, parse, dump and query at the same time; ThreadSanitizer watches
// every access and every result is compared with the one obtained alone.
#include <sched.h>
#include <time.h>

#include <atomic>
#include <thread>

#include "deep.h"
#include "hostile.h"

namespace vh {

namespace {
struct Job {
  int what = 0;
  std::shared_ptr<Exact> in;   // read by every thread that runs the job
  long width = -1;
  uint32_t opts = 0, type = 0;
  int delay = 0;
};
const char* const kWhat[] = {"streams parsed", "length-prefixed streams parsed", "units parsed", "payloads parsed", "RTP packets parsed", "configuration boxes parsed", "quantiser queries",
                             "structures parsed alone", "framing and text helpers", "shared results dumped", "shared results listed", "shared results queried"};
struct Shared {
  std::vector<std::shared_ptr<const Stream>> streams;
  std::vector<uint32_t> opts;
  std::shared_ptr<const Box> box;
  std::vector<std::unique_ptr<H265RtpParser::RtpState>> rtp;
  PState sets;
};
void pause_a_bit(int d) {
  if (d == 0) return;
  if (d < 4) { for (int i = 0; i < d; i++) sched_yield(); return; }
  struct timespec t = {0, d * 1000};
  nanosleep(&t, nullptr);
}
std::string perform(const Job& s, PState* st, const Shared& sh) {
  ParsingOptions po = opts_from(s.opts);
  const uint8_t* p = s.in->p;
  size_t n = s.in->n;
  std::string t;
  switch (s.what) {
    case 0: { auto r = H265BitstreamParser::ParseBitstream(p, n, st, po); pause_a_bit(s.delay); if (r) t = dump(*r) + deep(*r); break; }
    case 1: { auto r = H265BitstreamParser::ParseBitstreamNALULength(p, n, (size_t)s.width, st, po); if (r) t = dump(*r) + deep(*r); break; }
    case 2: { auto r = H265NalUnitParser::ParseNalUnit(p, n, st, po); if (r) t = dump(*r, po) + deep(*r); break; }
    case 3: { auto r = H265NalUnitPayloadParser::ParseNalUnitPayload(p, n, s.type, st); if (r) t = dump(*r, s.type, po) + deep(*r); break; }
    case 4: {
      auto r = H265RtpParser::ParseRtp(p, n, st);
      pause_a_bit(s.delay);
      if (r) t = capture([&](FILE* f) { r->fdump(f, -1, po); }) + deep(*r);
      auto q = H265Utils::GetSliceQpY(r, st);
      if (q) t += fmt(" qp %d", *q);
      break;
    }
    case 5: { auto r = H265ConfigurationBoxParser::ParseConfigurationBox(p, n, st, po); if (r) t = capture([&](FILE* f) { r->fdump(f, -1, po); }) + deep(*r); break; }
    case 6: for (int q : H265Utils::GetSliceQpY(p, n, st)) t += fmt(" %d", q); break;
    case 7: {
      if (n > 2) { p += 2; n -= 2; }
      switch (s.type % 4) {
        case 0: {
          auto r = H265SpsParser::ParseSps(p, n);
          if (r) {
            int w = 0, h = 0;
            uint32_t k = 0;
            t = deep(*r) + fmt(" %d %u %u", r->getResolution(&w, &h), r->getPicSizeInCtbsY(), r->getPicSizeInSamplesY()) + fmt(" %d %d", w, h);
            if (r->getMaxNumNegativePics(&k)) t += fmt(" %u", k);
            if (r->vui_parameters) t += fmt(" %a", (double)r->vui_parameters->getFramerate());
          }
          break;
        }
        case 1: { auto r = H265PpsParser::ParsePps(p, n); if (r) t = deep(*r); break; }
        case 2: { auto r = H265VpsParser::ParseVps(p, n); if (r) t = deep(*r); break; }
        case 3: { auto r = H265SeiMessageParser::ParseSei(p, n); if (r) t = deep(*r); break; }
      }
      break;
    }
    case 8: {
      t = hex(UnescapeRbsp(p, n), 4000);
      for (auto& i : H265BitstreamParser::FindNaluIndices(p, n)) t += fmt(" %zu", i.payload_start_offset);
      for (auto& i : H265BitstreamParser::FindNaluIndicesExplicitFraming(p, n)) t += fmt(" %zu", i.payload_start_offset);
      BitBuffer bb(p, n);
      auto k = NaluChecksum::GetNaluChecksum(&bb);
      t += k->GetPrintableChecksum();
      for (uint32_t i = 0; i < 64; i++) t += NalUnitTypeToString(i) + fmt("%d%d%d%d", IsSliceSegment(i), IsNalUnitTypeVcl(i), IsNalUnitTypeNonVcl(i), IsNalUnitTypeUnspecified(i));
      for (int i = 0; i < 24; i++) { std::string x; profileTypeToString((ProfileType)i, x); t += x; }
      break;
    }
    case 9:
      for (size_t i = 0; i < sh.streams.size(); i++) { t += dump(*sh.streams[i], (int)(s.type % 3) - 1); pause_a_bit(s.delay); }
      if (sh.box) t += capture([&](FILE* f) { sh.box->fdump(f, -1, po); });
      for (auto& r : sh.rtp) t += capture([&](FILE* f) { r->fdump(f, -1, po); });
      t += dump_state(sh.sets);
      break;
    case 10:
      for (auto& x : sh.streams) t += deep(*x);
      t += deep(sh.sets);
      break;
    case 11:
      for (auto& x : sh.sets.sps) {
        const Sps& q = *x.second;
        int w = 0, h = 0;
        uint32_t k = 0;
        int rc = q.getResolution(&w, &h);
        t += fmt(" %d %d %d %u %u %u %u %u", rc, w, h, q.getPicSizeInCtbsY(), q.getPicSizeInSamplesY(), q.getMinCbSizeY(), q.getCtbSizeY(), q.getPicWidthInMinCbsY());
        t += fmt(" %d %d", q.getSubWidthC(), q.getSubHeightC());
        if (q.getMaxNumNegativePics(&k)) t += fmt(" %u", k);
        if (q.vui_parameters) t += fmt(" %a", (double)q.vui_parameters->getFramerate());
        std::string nm;
        if (q.profile_tier_level && q.profile_tier_level->general) { profileTypeToString(q.profile_tier_level->general->GetProfileType(), nm); t += nm; }
      }
      for (auto& x : sh.rtp) { auto q = H265Utils::GetSliceQpY(x, st); if (q) t += fmt(" qp %d", *q); }
      break;
  }
  return t;
}
struct Plan {
  std::vector<int> jobs;                 // indices into the shared jobs
  std::unique_ptr<PState> st, again;     // own states, holding the same sets
  std::vector<std::string> out;
  std::string after;
  std::vector<uint32_t> tickets;
  uint32_t overlaps = 0;
};
}  // namespace

VH_MODE(R07, 1200, 150000, "one concurrent run; distinct by its inputs and by the order in which its operations began and ended") {
  Hostile h(c.r);
  Rng& r = c.r;
  h.level = r.chance(0.6) ? 0 : 0.003;
  Shared sh;
  uint64_t hh = 0;
  // what the threads share and only read
  for (int k = 1 + (int)r.below(3); k; k--) {
    long w = -1;
    Bytes b = h.stream(&sh.sets, &w);
    uint32_t ob = (uint32_t)r.below(32);
    Exact e(b);
    c.note("shared stream: input " + hex(b, 60000));
    std::shared_ptr<const Stream> s = H265BitstreamParser::ParseBitstream(e.p, e.n, &sh.sets, opts_from(ob));
    hh = hash_bytes(b, hh + 1);
    if (s) sh.streams.push_back(s);
  }
  for (uint64_t k = r.below(3); k; k--) {
    Bytes b = h.rtp(&sh.sets);
    Exact e(b);
    auto p = H265RtpParser::ParseRtp(e.p, e.n, &sh.sets);
    if (p) sh.rtp.push_back(std::move(p));
  }
  if (r.chance(0.3)) {
    Bytes b = h.hvcc(&sh.sets);
    Exact e(b);
    auto scratch = clone_refs(sh.sets);
    sh.box = H265ConfigurationBoxParser::ParseConfigurationBox(e.p, e.n, scratch.get(), opts_from(0));
  }
  // what they do
  std::vector<Job> jobs;
  std::string text;
  for (int k = 3 + (int)r.below(8); k; k--) {
    Job s;
    s.what = r.chance(0.25) ? 0 : (int)r.below(12);
    s.opts = (uint32_t)r.below(32);
    s.type = h.nut();
    s.delay = r.chance(0.6) ? 0 : (int)r.below(30);
    Bytes b;
    switch (s.what) {
      case 0: case 6: case 8: b = h.stream(&sh.sets, &s.width); break;
      case 1: s.width = (long)r.below(6); b = h.stream(&sh.sets, &s.width); break;
      case 2: b = h.unit(&sh.sets); break;
      case 3: b = h.payload(s.type, &sh.sets); break;
      case 4: b = h.rtp(&sh.sets); break;
      case 5: b = h.hvcc(&sh.sets); break;
      case 7: b = h.unit(&sh.sets, false); break;
      default: break;
    }
    hh = hash_bytes(b, mix(hh, (uint64_t)s.what));
    s.in = std::make_shared<Exact>(b);
    text += fmt(" | entry %d width %ld options %u type %u ", s.what, s.width, s.opts, s.type) + hex(b, 3000);
    jobs.push_back(s);
  }
  size_t nt = 2 + (size_t)r.below(5);
  bool same = r.chance(0.4);     // all threads run the same list at once
  bool fresh = r.chance(0.3);    // states start empty
  std::vector<Plan> plans(nt);
  std::vector<int> common;
  for (int k = 2 + (int)r.below(7); k; k--) common.push_back((int)r.below(jobs.size()));
  for (auto& p : plans) {
    p.jobs = common;
    if (!same) { p.jobs.clear(); for (int k = 2 + (int)r.below(7); k; k--) p.jobs.push_back((int)r.below(jobs.size())); }
    p.st = fresh ? std::make_unique<PState>() : clone_refs(sh.sets);
    p.again = fresh ? std::make_unique<PState>() : clone_refs(sh.sets);
  }
  c.note(fmt("%zu threads%s%s", nt, same ? ", same work" : "", fresh ? ", empty states" : "") + text);
  auto alone = [&](std::vector<std::vector<std::string>>* o, std::vector<std::string>* af) {
    for (auto& p : plans) {
      o->emplace_back();
      for (int j : p.jobs) o->back().push_back(perform(jobs[(size_t)j], p.again.get(), sh));
      af->push_back(deep(*p.again));
    }
  };
  std::vector<std::vector<std::string>> want;
  std::vector<std::string> want_after;
  bool before = r.chance(0.3);
  if (before) alone(&want, &want_after);
  // relaxed accesses only: they must not order the threads for the race detector
  std::atomic<int> go(0);
  std::atomic<uint32_t> ticket(0);
  std::atomic<int> inflight(0);
  std::vector<std::thread> th;
  for (auto& pl : plans) {
    Plan* p = &pl;
    th.emplace_back([&, p] {
      go.fetch_add(1, std::memory_order_relaxed);
      while (go.load(std::memory_order_relaxed) < (int)nt) sched_yield();
      for (int j : p->jobs) {
        const Job& s = jobs[(size_t)j];
        p->tickets.push_back(ticket.fetch_add(1, std::memory_order_relaxed));
        if (inflight.fetch_add(1, std::memory_order_relaxed) > 0) p->overlaps++;
        p->out.push_back(perform(s, p->st.get(), sh));
        inflight.fetch_sub(1, std::memory_order_relaxed);
        p->tickets.push_back(ticket.fetch_add(1, std::memory_order_relaxed));
      }
      p->after = deep(*p->st);
    });
  }
  for (auto& t : th) t.join();
  if (!before) alone(&want, &want_after);
  uint64_t order = 0;
  for (auto& p : plans) { for (uint32_t t : p.tickets) order = mix(order, t); c.count("operations begun while another thread was inside one", p.overlaps); }
  c.eval(mix(hh, order));
  c.count("threads", nt);
  c.count(before ? "runs compared with results obtained before" : "runs compared with results obtained afterwards");
  for (size_t i = 0; i < nt; i++) {
    for (size_t k = 0; k < plans[i].jobs.size(); k++) {
      const Job& s = jobs[(size_t)plans[i].jobs[k]];
      c.count(kWhat[s.what]);
      if (plans[i].out[k].size() > 100) c.count("results with contents");
      if (plans[i].out[k] != want[i][k]) {
        std::string key;
        std::string d = deep_diff(want[i][k], plans[i].out[k], &key);
        c.violation(std::string("result differs from the one obtained alone: ") + kWhat[s.what], d.substr(0, 800));
        return;
      }
    }
    if (plans[i].after != want_after[i]) { std::string key; c.violation("state differs from the one obtained alone", deep_diff(want_after[i], plans[i].after, &key).substr(0, 800)); return; }
  }
}
}  // namespace vh
