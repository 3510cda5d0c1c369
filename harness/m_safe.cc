// R01..R03: hostile inputs under AddressSanitizer and UndefinedBehaviorSanitizer, with assertions and exceptions fatal.
#include <string.h>

#include "hostile.h"

namespace vh {

static long pick_width(Rng& r) {
  if (r.chance(0.5)) return -1;
  static const long w[] = {4, 4, 4, 1, 2, 3, 0, 5, 8, 7};
  return w[r.below(10)];
}
static size_t odd_width(Rng& r, long w) {
  if (r.chance(0.9)) return (size_t)w;
  static const size_t big[] = {0, 9, 16, 31, 32, 33, 63, 64, 65, 255, 1u << 20, 1ull << 32, 1ull << 61, 1ull << 62, 1ull << 63, SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2};
  return big[r.below(18)];
}
// touches everything a caller can reach without dumping
static size_t walk(const Stream& s) {
  size_t n = 0;
  for (auto& u : s.nal_units) {
    n += u->offset + u->length + u->parsed_length;
    if (u->nal_unit_header) n += u->nal_unit_header->nal_unit_type;
    if (u->checksum) n += (size_t)u->checksum->GetLength() + (size_t)u->checksum->GetChecksum()[0];
  }
  return n;
}
static volatile size_t g_sink;

static std::unique_ptr<Stream> parse_some(Ctx& c, const Bytes& b, long w, PState* st, std::string* how) {
  uint32_t ob = (uint32_t)c.r.below(32);
  ParsingOptions po = opts_from(ob);
  Exact e(b);
  bool own = c.r.chance(0.08);
  std::unique_ptr<Stream> s;
  size_t width = 0;
  if (w >= 0) width = odd_width(c.r, w);
  *how = (w < 0 ? std::string("start codes") : fmt("width %zu", width)) + (own ? ", own state" : "") + ", options " + opt_text(ob);
  c.note(*how + " input " + hex(b, 60000));
  if (w < 0) s = own ? H265BitstreamParser::ParseBitstream(e.p, e.n, po) : H265BitstreamParser::ParseBitstream(e.p, e.n, st, po);
  else s = own ? H265BitstreamParser::ParseBitstreamNALULength(e.p, e.n, width, po) : H265BitstreamParser::ParseBitstreamNALULength(e.p, e.n, width, st, po);
  return s;
}

VH_MODE(R01, 9000, 2000000, "one hostile stream parsed; distinct by its bytes") {
  Hostile h(c.r);
  PState st;
  for (int k = 1 + (int)c.r.below(5); k; k--) {
    if (c.r.chance(0.4)) h.retune();
    long w = pick_width(c.r);
    Bytes b = h.stream(&st, &w);
    c.eval(hash_bytes(b));
    std::string how;
    auto s = parse_some(c, b, w, &st, &how);
    if (!s) { c.violation("no result object", how); return; }
    for (auto& u : s->nal_units) {
      if (!u) { c.violation("null unit in the result", how); return; }
      c.count("units");
      if (u->nal_unit_payload) {
        auto& p = *u->nal_unit_payload;
        c.count(p.vps || p.sps || p.pps || p.slice_segment_layer || p.aud || p.sei ? "units decoded" : "units without decoded payload");
        if (p.slice_segment_layer) c.count("slices decoded");
      }
    }
    g_sink = walk(*s);
    c.count("streams");
    c.count("bytes", b.size());
  }
  c.maximum("sets in one state", st.vps.size() + st.sps.size() + st.pps.size());
}

// ---------------------------------------------------------------- R02
// "CLS(Vps, ParseVps)" -> "ParseVps"
static std::string bare(std::string s) {
  size_t i = s.find(", ");
  return i == std::string::npos ? s : s.substr(i + 2, s.size() - i - 3);
}

// What follows is one call of one entry point.  |use| receives non-null results.
template <class F> static void direct(Ctx& c, Hostile& h, PState& st, const Bytes& b, int which, F use) {
  Rng& r = c.r;
  Exact e(b);
  // through a bit reader standing at some bit, or from bytes
  bool bits = r.chance(0.5);
  size_t at = 0;
  if (bits && r.chance(0.4) && b.size()) at = (size_t)r.below(std::min<size_t>(b.size() * 8, 64));
  BitBuffer bb(e.p, e.n);
  if (at) bb.ConsumeBits((uint64_t)at);
  auto say = [&](const std::string& what) { c.note(what + (bits ? fmt(" at bit %zu", at) : std::string()) + " input " + hex(b, 60000)); c.count("calls " + what.substr(0, what.find(' '))); };
#define CALL(name, text, ...)                                                        \
  do {                                                                               \
    say(bare(#name) + " " + text);                                              \
    auto res = bits ? name(&bb, ##__VA_ARGS__) : name(e.p, e.n, ##__VA_ARGS__);      \
    if (res) { c.count("results " + bare(#name)); use(*res); }                               \
    uint64_t left = bb.RemainingBitCount();                                          \
    if (left > (uint64_t)b.size() * 8) c.violation("reader beyond the end", #name);  \
  } while (0)
#define CLS(cls, fn) H265##cls##Parser::fn
  uint32_t a1, a2, a3;
  switch (which) {
    case S_VPS: CALL(CLS(Vps, ParseVps), ""); break;
    case S_SPS: CALL(CLS(Sps, ParseSps), ""); break;
    case S_PPS: CALL(CLS(Pps, ParsePps), ""); break;
    case S_AUD: CALL(CLS(Aud, ParseAud), ""); break;
    case S_SEI: CALL(CLS(SeiMessage, ParseSei), ""); break;
    case S_PINFO: CALL(CLS(ProfileTierLevel, ParseProfileTierLevel), "profile only", true, 0u); break;
    case S_PTL: a1 = h.arg(1); a2 = h.arg(7); CALL(CLS(ProfileTierLevel, ParseProfileTierLevel), fmt("%u %u", a1, a2), a1 != 0, a2); break;
    case S_SUBHRD: a1 = h.arg(7); a2 = h.arg(32); a3 = h.arg(1); CALL(CLS(SubLayerHrdParameters, ParseSubLayerHrdParameters), fmt("%u %u %u", a1, a2, a3), a1, a2, a3); break;
    case S_HRD: a1 = h.arg(1); a2 = h.arg(7); CALL(CLS(HrdParameters, ParseHrdParameters), fmt("%u %u", a1, a2), a1, a2); break;
    case S_VUI: a1 = h.arg(7); CALL(CLS(VuiParameters, ParseVuiParameters), fmt("%u", a1), a1); break;
    case S_STRPS: {
      RpsVec v;
      // earlier sets, as parsed; sometimes with missing ones
      uint32_t n = h.arg(8), idx = h.arg(8), max = h.arg(16);
      for (uint64_t i = r.below(9); i; i--) {
        Bytes x = h.structure(S_STRPS, nullptr);
        Exact ex(x);
        auto p = H265StRefPicSetParser::ParseStRefPicSet(ex.p, ex.n, (uint32_t)v.size(), 64, &v, 16);
        if (p || r.chance(0.05)) v.push_back(std::move(p));
      }
      CALL(CLS(StRefPicSet, ParseStRefPicSet), fmt("idx %u of %u, %zu known, max %u", idx, n, v.size(), max), idx, n, &v, max);
      break;
    }
    case S_SLD: CALL(CLS(ScalingListData, ParseScalingListData), ""); break;
    case S_SPSRANGE: CALL(CLS(SpsRangeExtension, ParseSpsRangeExtension), ""); break;
    case S_SPSMULTI: CALL(CLS(SpsMultilayerExtension, ParseSpsMultilayerExtension), ""); break;
    case S_SPS3D: CALL(CLS(Sps3dExtension, ParseSps3dExtension), ""); break;
    case S_SPSSCC: a1 = h.arg(3); a2 = h.arg(8); a3 = h.arg(8); CALL(CLS(SpsSccExtension, ParseSpsSccExtension), fmt("%u %u %u", a1, a2, a3), a1, a2, a3); break;
    case S_PPSMULTI: CALL(CLS(PpsMultilayerExtension, ParsePpsMultilayerExtension), ""); break;
    case S_PPSSCC: CALL(CLS(PpsSccExtension, ParsePpsSccExtension), ""); break;
    case S_PWT: a1 = h.arg(3); a2 = h.arg(15); a3 = h.arg(15); CALL(CLS(PredWeightTable, ParsePredWeightTable), fmt("%u %u %u", a1, a2, a3), a1, a2, r.chance(0.5), a3); break;
    default: break;
  }
#undef CALL
}

// Entry points that use a parser state.
template <class F> static void stateful(Ctx& c, Hostile& h, PState& st, F use) {
  Rng& r = c.r;
  uint32_t t = r.chance(0.9) ? h.nut() : h.arg(63);
  int what = (int)r.below(9);
  Bytes b;
  switch (what) {
    case 0: case 1: b = h.structure(S_SLICE, &st); break;
    case 2: b = h.payload(t & 63, &st); break;
    case 3: b = h.unit(&st, true); break;
    case 4: b = h.unit(&st, false); break;
    case 5: case 6: b = h.rtp(&st); break;
    case 7: b = h.hvcc(&st); break;
    case 8: b = h.unit(&st, false).size() ? h.unit(&st, false) : Bytes(); break;
  }
  c.eval(hash_bytes(b));
  Exact e(b);
  bool bits = r.chance(0.5);
  size_t at = 0;
  if (bits && r.chance(0.15) && b.size()) at = (size_t)r.below(std::min<size_t>(b.size() * 8, 64));
  BitBuffer bb(e.p, e.n);
  if (at) bb.ConsumeBits((uint64_t)at);
  uint32_t ob = (uint32_t)r.below(32);
  ParsingOptions po = opts_from(ob);
  auto say = [&](const std::string& n) {
    c.note(n + (bits ? fmt(" at bit %zu", at) : std::string()) + fmt(" type %u options %s sets ", t, opt_text(ob).c_str()) + " input " + hex(b, 60000));
    c.count("calls " + n);
  };
#define CALL(name, ...)                                                       \
  do {                                                                        \
    say(bare(#name));                                                               \
    auto res = bits ? name(&bb, __VA_ARGS__) : name(e.p, e.n, __VA_ARGS__);   \
    if (res) { c.count("results " + bare(#name)); use(*res, t, res); }                \
    if (bb.RemainingBitCount() > (uint64_t)b.size() * 8) c.violation("reader beyond the end", #name); \
  } while (0)
  switch (what) {
    case 0: CALL(CLS(SliceSegmentHeader, ParseSliceSegmentHeader), t, &st); break;
    case 1: CALL(CLS(SliceSegmentLayer, ParseSliceSegmentLayer), t, &st); break;
    case 2: CALL(CLS(NalUnitPayload, ParseNalUnitPayload), t, &st); break;
    case 3:
      bits = false;
      say("ParseNalUnitUnescaped");
      { auto res = CLS(NalUnit, ParseNalUnitUnescaped)(e.p, e.n, &st, po); if (res) { c.count("results ParseNalUnitUnescaped"); use(*res, t, res); } }
      break;
    case 4: CALL(CLS(NalUnit, ParseNalUnit), &st, po); break;
    case 5: CALL(CLS(Rtp, ParseRtp), &st); break;
    case 6:
      switch (r.below(3)) {
        case 0: CALL(CLS(RtpSingle, ParseRtpSingle), &st); break;
        case 1: CALL(CLS(RtpAp, ParseRtpAp), &st); break;
        case 2: CALL(CLS(RtpFu, ParseRtpFu), &st); break;
      }
      break;
    case 7: CALL(CLS(ConfigurationBox, ParseConfigurationBox), &st, po); break;
    case 8: {
      say("utilities");
      auto q = H265Utils::GetSliceQpY(e.p, e.n, &st);
      g_sink = q.size();
      g_sink = UnescapeRbsp(e.p, e.n).size();
      g_sink = CLS(Bitstream, FindNaluIndices)(e.p, e.n).size() + CLS(Bitstream, FindNaluIndicesExplicitFraming)(e.p, e.n).size();
      auto hd = bits ? CLS(NalUnitHeader, ParseNalUnitHeader)(&bb) : CLS(NalUnitHeader, ParseNalUnitHeader)(e.p, e.n);
      g_sink = hd != nullptr;
      auto s = CLS(NalUnitPayload, ParseNalUnitPayload)(e.p, e.n, t, &st);
      auto ck = NaluChecksum::GetNaluChecksum(&bb);
      if (ck) g_sink = ck->GetPrintableChecksum().size();
      g_sink = (size_t)byte_aligned(&bb) + get_current_offset(&bb) + (size_t)more_rbsp_data(&bb) + (size_t)rbsp_trailing_bits(&bb);
      break;
    }
  }
#undef CALL
}

// one kind of supplemental message content, straight into its parser
template <class F> static void sei_payload(Ctx& c, Hostile& h, F use) {
  Rng& r = c.r;
  std::unique_ptr<H265SeiPayloadParser> p;
  int k = (int)r.below(11);
  switch (k) {
    case 0: p = std::make_unique<H265SeiUserDataRegisteredItuTT35Parser>(); break;
    case 1: p = std::make_unique<H265SeiUserDataUnregisteredParser>(); break;
    case 2: p = std::make_unique<H265SeiAlphaChannelInfoParser>(); break;
    case 3: p = std::make_unique<H265SeiMasteringDisplayColourVolumeParser>(); break;
    case 4: p = std::make_unique<H265SeiContentLightLevelInfoParser>(); break;
    case 5: p = std::make_unique<H265SeiKneeFunctionInfoParser>(); break;
    case 6: p = std::make_unique<H265SeiColourRemappingInfoParser>(); break;
    case 7: p = std::make_unique<H265SeiContentColourVolumeParser>(); break;
    case 8: p = std::make_unique<H265SeiAlternativeTransferCharacteristicsParser>(); break;
    case 9: p = std::make_unique<H265SeiAmbientViewingEnvironmentParser>(); break;
    default: p = std::make_unique<H265SeiUnknownParser>(); break;
  }
  Bytes b = h.noise();
  if (r.chance(0.6)) { Bytes x = h.structure(S_SEI, nullptr); if (x.size() > 2) b.assign(x.begin() + 2, x.end()); }
  c.eval(hash_bytes(b, (uint64_t)k));
  Exact e(b);
  BitBuffer bb(e.p, e.n);
  size_t at = r.chance(0.2) && b.size() ? (size_t)r.below(std::min<size_t>(b.size() * 8, 64)) : 0;
  if (at) bb.ConsumeBits((uint64_t)at);
  uint32_t size = r.chance(0.4) ? (uint32_t)b.size() : r.chance(0.9) ? (uint32_t)r.below(b.size() + 40) : (uint32_t)r.logbelow(1u << 20);
  c.note(fmt("sei payload parser %d size %u at bit %zu input ", k, size, at) + hex(b, 60000));
  c.count(fmt("calls sei payload parser %d", k));
  auto res = p->parse_payload(&bb, size);
  if (res) { c.count(fmt("results sei payload parser %d", k)); use(*res); }
}

struct Nothing {
  template <class T> void operator()(const T&) const {}
  template <class T, class P> void operator()(const T&, uint32_t, const P&) const {}
};

static void seed_state(Ctx& c, Hostile& h, PState* st) {
  // valid and hostile sets, as the library accepts them
  for (int k = (int)c.r.below(5); k >= 0; k--) {
    long w = -1;
    Bytes b = h.stream(st, &w);
    c.note("filling the state: input " + hex(b, 60000));
    Exact e(b);
    H265BitstreamParser::ParseBitstream(e.p, e.n, st, opts_from(0));
    if (c.r.chance(0.3)) h.retune();
  }
}

VH_MODE(R02, 10000, 2500000, "one call of one parser; distinct by its input bytes") {
  Hostile h(c.r);
  PState st;
  if (c.r.chance(0.5)) seed_state(c, h, &st);
  for (int k = 0; k < 12; k++) {
    if (c.r.chance(0.3)) h.retune();
    double x = (double)(c.r.next() % 1000) / 1000;
    if (x < 0.5) {
      int which = (int)c.r.below(S_HVCC);
      if (which == S_SLICE) which = S_SPS;
      Bytes b = c.r.chance(0.1) ? h.noise() : h.structure((Struct)which, &st);
      c.eval(hash_bytes(b, (uint64_t)which));
      direct(c, h, st, b, which, Nothing());
    } else if (x < 0.85) {
      stateful(c, h, st, Nothing());
    } else {
      sei_payload(c, h, Nothing());
    }
  }
}

// ---------------------------------------------------------------- R03
struct Dumper {
  Ctx& c;
  PState& st;
  ParsingOptions po;
  int indent;
  Dumper(Ctx& cc, PState& s) : c(cc), st(s), po(opts_from((uint32_t)cc.r.below(32))), indent(cc.r.chance(0.4) ? -1 : (int)cc.r.logbelow(40)) {}
  void text(const std::string& s, const char* what) const { c.count(std::string("dumps of ") + what); c.count("bytes dumped", s.size()); g_sink = s.size(); }

  void queries(const Sps& s) const {
    uint32_t n = 0;
    int w = 0, hh = 0;
    g_sink = (size_t)s.getMaxNumNegativePics(&n) + s.getMinCbSizeY() + s.getCtbSizeY() + s.getPicWidthInMinCbsY() + s.getPicWidthInCtbsY() + s.getPicHeightInMinCbsY() +
             s.getPicHeightInCtbsY() + s.getPicSizeInMinCbsY() + s.getPicSizeInCtbsY() + s.getPicSizeInSamplesY() +
             (size_t)s.getSubWidthC() + (size_t)s.getSubHeightC() + (size_t)s.getResolution(&w, &hh);
    if (s.vui_parameters) { volatile float f = s.vui_parameters->getFramerate(); (void)f; }
    if (s.profile_tier_level && s.profile_tier_level->general) queries(*s.profile_tier_level->general);
    c.count("queries");
  }
  void queries(const PInfo& p) const { std::string t; profileTypeToString(p.GetProfileType(), t); g_sink = t.size(); }
  void visit(const NalPayload& p) const { if (p.sps) queries(*p.sps); }
  // plain structures
  template <class T> auto show(const T& x, int) const -> decltype(x.fdump(nullptr, 0)) { text(capture([&](FILE* f) { x.fdump(f, indent); }), "structures"); }
  template <class T> auto show(const T& x, long) const -> decltype(x.fdump(nullptr, 0, po)) { text(capture([&](FILE* f) { x.fdump(f, indent, po); }), "units and containers"); }
  void show(const NalPayload& p, uint32_t t) const {
    visit(p);
    text(capture([&](FILE* f) { p.fdump(f, indent, c.r.chance(0.9) ? t : (uint32_t)c.r.below(64), po); }), "payloads");
  }
  template <class T> void operator()(const T& x) const { show(x, 0); }
  void operator()(const Sps& x) const { queries(x); show(x, 0); }
  void operator()(const Nal& x) const { if (x.nal_unit_payload) { visit(*x.nal_unit_payload); } if (x.checksum) sum(*x.checksum); show(x, 0); }
  void sum(const NaluChecksum& k) const {
    char buf[200];
    int n = (int)c.r.below(200);
    std::unique_ptr<char[]> b(new char[(size_t)n + 1]);
    if (n > 0) k.fdump(b.get(), n);
    (void)buf;
    g_sink = k.GetPrintableChecksum().size();
    c.count("checksums printed");
  }
  template <class T, class P> void operator()(const T& x, uint32_t, const P&) const { (*this)(x); }
  void operator()(const NalPayload& x, uint32_t t, const std::unique_ptr<NalPayload>&) const { show(x, t); }
  void operator()(const H265RtpParser::RtpState& x, uint32_t, const std::unique_ptr<H265RtpParser::RtpState>& p) const {
    auto q = H265Utils::GetSliceQpY(p, &st);
    g_sink = q ? 1 : 0;
    c.count("quantiser queries");
    if (c.r.chance(0.3)) {   // against sets that have changed since
      PState other;
      if (!st.pps.empty() && c.r.chance(0.7)) { other.pps = st.pps; if (c.r.chance(0.5)) other.sps.clear(); }
      auto q2 = H265Utils::GetSliceQpY(p, &other);
      g_sink = q2 ? 1 : 0;
    }
    show(x, 0);
  }
};

VH_MODE(R03, 6000, 1300000, "one result dumped and queried; distinct by its input bytes") {
  Hostile h(c.r);
  PState st;
  if (c.r.chance(0.6)) seed_state(c, h, &st);
  for (int k = 0; k < 6; k++) {
    if (c.r.chance(0.3)) h.retune();
    double x = (double)(c.r.next() % 1000) / 1000;
    Dumper d(c, st);
    if (x < 0.35) {
      long w = pick_width(c.r);
      Bytes b = h.stream(&st, &w);
      c.eval(hash_bytes(b));
      std::string how;
      auto s = parse_some(c, b, w, &st, &how);
      if (!s) continue;
      d.text(dump(*s, d.indent), "streams");
      for (auto& u : s->nal_units) {   // other options than those used while parsing
        Dumper e(c, st);
        e(*u);
      }
      if (c.r.chance(0.3)) {
        Exact e(b);
        auto q = H265Utils::GetSliceQpY(e.p, e.n, &st);
        g_sink = q.size();
        c.count("quantiser queries");
      }
    } else if (x < 0.6) {
      int which = (int)c.r.below(S_HVCC);
      if (which == S_SLICE) which = S_SPS;
      Bytes b = h.structure((Struct)which, &st);
      c.eval(hash_bytes(b, (uint64_t)which));
      direct(c, h, st, b, which, d);
    } else if (x < 0.9) {
      stateful(c, h, st, d);
    } else {
      sei_payload(c, h, d);
    }
  }
  if (c.r.chance(0.3)) g_sink = dump_state(st).size();
}
}  // namespace vh
