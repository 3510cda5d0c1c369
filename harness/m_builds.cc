// R09: the same inputs parsed by differently built libraries.  The driver builds the library in its full, its small-footprint
// and a release configuration, with two compilers, runs the same cases in each and compares the digests of all results.
// The results are walked member by member, since the small-footprint library has no dumps.
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

#include "deep.h"
#include "hostile.h"

namespace vh {

#ifdef SMALL_FOOTPRINT
static const bool kSmall = true;
#else
static const bool kSmall = false;
#endif

template <class P> static std::string walk(const P& r) { return r ? deep(*r) : std::string("none"); }

static std::string derived(const Sps& s) {
  int w = -1, h = -1;
  uint32_t m = 0;
  bool k = s.getMaxNumNegativePics(&m);
  int rc = s.getResolution(&w, &h);
  std::string t = fmt(" neg %d %u res %d", (int)k, k ? m : 0, rc);
  if (rc == 0) t += fmt(" %d %d", w, h);
  t += fmt(" %u %u %u %u %u", s.getPicSizeInMinCbsY(), s.getPicSizeInCtbsY(), s.getPicSizeInSamplesY(), s.getCtbSizeY(), s.getMinCbSizeY());
  if (s.vui_parameters) t += fmt(" rate %a", (double)s.vui_parameters->getFramerate());
  return t;
}
static std::string checks(const Nal& n) {
  std::string t = fmt(" offset %zu length %zu parsed %zu", n.offset, n.length, n.parsed_length);
  if (n.checksum) t += " sum " + n.checksum->GetPrintableChecksum();
  if (n.nal_unit_payload && n.nal_unit_payload->sps) t += derived(*n.nal_unit_payload->sps);
  return t;
}

// The tool of the small-footprint build reads what it is given, prints nothing and ends well.
static void tool(Ctx& c, const Bytes& b) {
  const char* exe = getenv("VH_CLI");
  if (!exe || b.empty()) return;
  std::string f = c.outdir + fmt("/in%d", c.shard), o = c.outdir + fmt("/out%d", c.shard);
  FILE* fp = fopen(f.c_str(), "wb");
  if (!fp) abort();
  fwrite(b.data(), 1, b.size(), fp);
  fclose(fp);
  int st = system(("'" + std::string(exe) + "' --dump-all -i '" + f + "' > '" + o + "' 2>&1").c_str());
  c.count("runs of the small-footprint tool");
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) c.violation("the small-footprint tool fails", fmt("wait status %d", st));
  unlink(f.c_str());
  unlink(o.c_str());
}

VH_MODE(R09, 24000, 600000, "one history parsed by every build; distinct by its bytes") {
  Hostile h(c.r);
  bool rtp = c.cur % 8 == 5, text = c.cur % 8 == 6;   // packets and dumps are not part of the small-footprint library
  if ((rtp || text) && kSmall) return;
  PState st;
  for (int k = 1 + (int)c.r.below(6); k; k--) {
    if (c.r.chance(0.5)) h.level = c.r.chance(0.6) ? 0 : 0.003;
    ParsingOptions po = opts_from((uint32_t)c.r.below(32));
    int what = (int)c.r.below(13);
    if (c.r.chance(0.3)) what = 0;
    if (rtp) what = 13;
    long width = -1;
    uint32_t type = h.nut();
    Bytes b;
    switch (what) {
      case 0: case 6: b = h.stream(&st, &width); break;
      case 1: width = (long)c.r.below(6); b = h.stream(&st, &width); break;
      case 2: b = h.unit(&st); break;
      case 3: b = h.payload(type, &st); break;
      case 5: b = h.hvcc(&st); break;
      case 7: b = h.structure(S_SPS, &st); break;
      case 8: b = h.structure(S_PPS, &st); break;
      case 9: b = h.structure(S_VPS, &st); break;
      case 10: b = h.structure(S_SEI, &st); break;
      case 4: b = h.unit(&st); break;
      case 11: b = h.payload(type, &st); break;
      case 12: b = h.stream(&st, &width); break;
      case 13: b = h.rtp(&st); break;
    }
    c.note(fmt("entry %d width %ld type %u input ", what, width, type) + hex(b, 60000));
    c.eval(hash_bytes(b, (uint64_t)what));
    Exact e(b);
    const uint8_t* p = e.p;
    size_t n = e.n;
    std::string t;
    if (what == 0 && !kSmall && c.cur % 16 == 3) tool(c, b);
    switch (what) {
      case 0: { auto r = H265BitstreamParser::ParseBitstream(p, n, &st, po); t = walk(r); if (r) for (auto& u : r->nal_units) if (u) t += checks(*u); if (r && text) t += "\n" + dump(*r, c.cur & 16 ? -1 : 0); break; }
      case 1: { auto r = H265BitstreamParser::ParseBitstreamNALULength(p, n, (size_t)width, &st, po); t = walk(r); if (r) for (auto& u : r->nal_units) if (u) t += checks(*u); break; }
      case 2: { auto r = H265NalUnitParser::ParseNalUnit(p, n, &st, po); t = walk(r); if (r) t += checks(*r); if (r && text) t += "\n" + dump(*r, po); break; }
      case 3: t = walk(H265NalUnitPayloadParser::ParseNalUnitPayload(p, n, type, &st)); break;
      case 4: { auto r = H265NalUnitParser::ParseNalUnitUnescaped(p, n, &st, po); t = walk(r); if (r) t += checks(*r); break; }
      case 5: t = walk(H265ConfigurationBoxParser::ParseConfigurationBox(p, n, &st, po)); break;
      case 6: { auto q = H265Utils::GetSliceQpY(p, n, &st); t = "qp"; for (int x : q) t += fmt(" %d", x); break; }
      case 7: { auto r = H265SpsParser::ParseSps(p, n); t = walk(r); if (r) t += derived(*r); break; }
      case 8: t = walk(H265PpsParser::ParsePps(p, n)); break;
      case 9: t = walk(H265VpsParser::ParseVps(p, n)); break;
      case 10: t = walk(H265SeiMessageParser::ParseSei(p, n)); break;
      case 11: {
        auto u = UnescapeRbsp(p, n);
        t = "bytes " + hex(u, u.size());
        break;
      }
      case 12: {
        t = "split";
        for (auto& x : H265BitstreamParser::FindNaluIndices(p, n)) t += fmt(" %zu+%zu", x.payload_start_offset, x.payload_size);
        break;
      }
#ifndef SMALL_FOOTPRINT
      case 13: {
        auto r = H265RtpParser::ParseRtp(p, n, &st);
        t = walk(r);
        auto q = H265Utils::GetSliceQpY(r, &st);
        if (q) t += fmt(" qp %d", *q);
        break;
      }
#endif
    }
    c.digest(t);
    c.count(what == 13 ? "packets" : what == 6 ? "quantiser lists" : "results");
    if (t.size() > 200) c.count("results with contents");
  }
  c.digest("state " + deep(st));
}

}  // namespace vh
