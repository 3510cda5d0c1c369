// F01..F05: framing, unit headers, unit bookkeeping, and equality across containers.
#include <string.h>

#include <algorithm>

#include "build.h"

namespace vh {

struct Idx { size_t start, payload, size; };

// Reference splitter for start codes: 00 00 01 followed by at least one byte starts a unit; one zero byte directly
// before belongs to the start code; a unit ends where the next start code begins.
static std::vector<Idx> ref_split(const Bytes& b) {
  std::vector<Idx> v;
  for (size_t i = 0; i + 3 < b.size();) {
    if (b[i] == 0 && b[i + 1] == 0 && b[i + 2] == 1) {
      v.push_back(Idx{i > 0 && b[i - 1] == 0 ? i - 1 : i, i + 3, 0});
      i += 3;
    } else {
      i++;
    }
  }
  for (size_t k = 0; k < v.size(); k++) v[k].size = (k + 1 < v.size() ? v[k + 1].start : b.size()) - v[k].payload;
  return v;
}
// Reference splitter for length prefixes.  |zero_ok|: a zero length yields an empty unit instead of stopping.
static std::vector<Idx> ref_prefixed(const Bytes& b, size_t width, bool zero_ok) {
  std::vector<Idx> v;
  if (width == 0) {
    if (!b.empty()) v.push_back(Idx{0, 0, b.size()});
    return v;
  }
  size_t i = 0;
  while (i < b.size() && b.size() - i >= width) {
    unsigned __int128 len = 0;
    bool big = false;
    for (size_t k = 0; k < width; k++) {
      len = len * 256 + b[i + k];
      if (len > ((unsigned __int128)1 << 64)) { big = true; len = (unsigned __int128)1 << 64; }
    }
    if (big || (len == 0 && !zero_ok) || len > b.size() - i - width) break;
    v.push_back(Idx{i, i + width, (size_t)len});
    i += width + (size_t)len;
  }
  return v;
}
static std::string show(const std::vector<Idx>& v) {
  std::string s;
  for (auto& x : v) s += fmt("(%zu,%zu,%zu)", x.start, x.payload, x.size);
  return s;
}
template <class V> static std::vector<Idx> conv(const V& v) {
  std::vector<Idx> o;
  for (auto& x : v) o.push_back(Idx{x.start_offset, x.payload_start_offset, x.payload_size});
  return o;
}
static bool same(const std::vector<Idx>& a, const std::vector<Idx>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (a[i].start != b[i].start || a[i].payload != b[i].payload || a[i].size != b[i].size) return false;
  return true;
}
// Bytes rich in start-code fragments.
static Bytes zeros_soup(Rng& r, size_t n) {
  Bytes b(n);
  int style = (int)r.below(3);
  for (auto& x : b) {
    uint64_t k = r.below(100);
    if (style == 0) x = k < 60 ? 0 : k < 85 ? 1 : k < 92 ? 3 : (uint8_t)r.next();
    else if (style == 1) x = k < 35 ? 0 : k < 55 ? 1 : k < 65 ? 2 : (uint8_t)r.next();
    else x = (uint8_t)r.below(3);
  }
  return b;
}

VH_MODE(F01, 500000, 12000000, "one byte stream split by start codes; distinct by the splitting and the bytes") {
  Bytes b;
  size_t n_units = 0;
  uint64_t kind = c.r.below(10);
  if (c.cur % 250000 == 13) {   // start codes on both sides of the places where 32-bit offsets would wrap
    c.note("start codes beyond 4 GiB");
    Sparse sp(((size_t)1 << 32) + 100000, Bytes{0, 0, 1, 9, 9, 9});
    std::vector<Idx> want;
    for (size_t at : {(size_t)5, (size_t)1 << 16, (size_t)1 << 24, ((size_t)1 << 31) - 2, ((size_t)1 << 31) + 77, ((size_t)1 << 32) - 1, ((size_t)1 << 32) + 500, sp.n - 6}) {
      bool four = c.r.chance(0.5);
      sp.put(at, Bytes{0, 0, 1});
      if (!four) sp.put(at - 1, Bytes{7});
      want.push_back(Idx{at - four, at + 3, 0});
    }
    for (size_t k = 0; k < want.size(); k++) want[k].size = (k + 1 < want.size() ? want[k + 1].start : sp.n) - want[k].payload;
    auto got = conv(H265BitstreamParser::FindNaluIndices(sp.p, sp.n));
    c.eval(hash_str(show(want)));
    c.count("streams of more than 4 GiB");
    c.count("units split", want.size());
    if (!same(want, got)) c.violation("split of a stream beyond 4 GiB", fmt("units (start code, unit, size) expected %s got %s", show(want).c_str(), show(got).c_str()));
    return;
  }
  if (c.cur % 2500 == 11) {
    bool huge = c.cur % 100000 == 11;
    if (!huge && c.r.chance(0.4)) {   // very many units
      size_t k = c.r.chance(0.5) ? 200 + (size_t)c.r.below(400) : 65000 + (size_t)c.r.below(2000);
      for (size_t i = 0; i < k; i++) {
        if (c.r.chance(0.5)) b.push_back(0);
        for (uint8_t x : {0, 0, 1}) b.push_back(x);
        for (uint64_t j = 1 + c.r.below(3); j; j--) b.push_back((uint8_t)(2 + c.r.below(254)));
      }
      c.count("streams of hundreds or many thousands of units");
    } else {   // long units
      size_t k = 1 + (size_t)c.r.below(4);
      for (size_t i = 0; i < k; i++) {
        for (uint64_t z = 2 + c.r.below(2); z; z--) b.push_back(0);
        b.push_back(1);
        Bytes p = escape(c.r.bytes((huge && (i + 1 == k || c.r.chance(0.3)) ? (size_t)1 << 24 : wrap_size(c.r, 65536)) + (size_t)c.r.below(70000)));
        b.insert(b.end(), p.begin(), p.end());
      }
      c.count("streams with units of tens of kilobytes and more");
    }
  } else if (kind < 6) {
    b = zeros_soup(c.r, (size_t)(c.r.chance(0.9) ? c.r.below(40) : c.r.below(3000)));
  } else if (kind < 8) {
    // arbitrary payloads without start codes between real start codes
    size_t k = 1 + (size_t)c.r.below(6);
    if (c.r.chance(0.3)) for (uint64_t j = c.r.below(6); j; j--) b.push_back((uint8_t)(c.r.chance(0.7) ? 0 : 7));
    for (size_t i = 0; i < k; i++) {
      for (uint64_t z = 2 + c.r.below(4); z; z--) b.push_back(0);
      b.push_back(1);
      Bytes p = escape(c.r.bytes((size_t)c.r.logbelow(300)));
      b.insert(b.end(), p.begin(), p.end());
    }
    if (c.r.chance(0.3)) for (uint64_t j = c.r.below(5); j; j--) b.push_back(0);
    if (c.r.chance(0.2)) { b.push_back(0); b.push_back(0); b.push_back(1); }
  } else {
    b = c.r.bytes((size_t)c.r.logbelow(5000));
    for (uint64_t k = c.r.below(8); k && b.size() > 4; k--) {
      size_t p = (size_t)c.r.below(b.size() - 3);
      b[p] = b[p + 1] = 0;
      b[p + 2] = 1;
    }
  }
  c.note("start codes", b);
  Exact e(b);
  auto want = ref_split(b);
  auto got = conv(H265BitstreamParser::FindNaluIndices(e.p, e.n));
  c.eval(mix(hash_str(show(want)), hash_bytes(b)), !b.empty());
  c.count(want.empty() ? "streams without units" : "streams with units");
  c.count("units split", want.size());
  n_units = want.size();
  c.maximum("units in one stream", n_units);
  if (!same(want, got)) {
    c.violation("split", fmt("units (start code, unit, size) expected %s got %s", show(want).c_str(), show(got).c_str()));
    return;
  }
  // order, disjointness and conservation of bytes, from the reported indices alone
  size_t pos = got.empty() ? b.size() : got[0].start;
  for (auto& x : got) {
    size_t sc = x.payload - x.start;
    if (x.start != pos || (sc != 3 && sc != 4)) { c.violation("bytes not accounted for", fmt("unit at %zu after byte %zu, start code of %zu bytes", x.start, pos, sc)); return; }
    pos = x.payload + x.size;
  }
  if (pos != b.size()) c.violation("bytes not accounted for", fmt("units end at %zu of %zu", pos, b.size()));
  // the stream parser reports the units that have a header, at the same places
  if (c.r.chance(0.3)) {
    auto s = H265BitstreamParser::ParseBitstream(e.p, e.n, opts_all());
    if (!s) { c.violation("no stream result", "ParseBitstream returned nothing"); return; }
    std::vector<Idx> w2, g2;
    for (auto& x : want) {
      Bytes u(b.begin() + (long)x.payload, b.begin() + (long)(x.payload + x.size));
      if (ref_unescape(u).size() >= 2) w2.push_back(Idx{0, x.payload, x.size});
    }
    for (auto& n : s->nal_units) g2.push_back(Idx{0, n->offset, n->length});
    c.count("streams parsed");
    if (!same(w2, g2)) c.violation("stream units", fmt("expected %s got %s", show(w2).c_str(), show(g2).c_str()));
  }
  if (want.size() > 2) c.sample(fmt("%zu units in %zu bytes: %s", want.size(), b.size(), hex(b, 30).c_str()));
}

VH_MODE(F02, 500000, 9000000, "one length-prefixed buffer and width; distinct by width, splitting and bytes") {
  static const size_t widths[] = {0, 1, 2, 3, 4, 4, 4, 5, 6, 7, 8, 9, 16};
  size_t width = widths[c.r.below(sizeof widths / sizeof *widths)];
  if (c.cur % 250000 == 17) {   // prefixes on both sides of the places where 32-bit offsets would wrap
    c.note("length prefixes beyond 4 GiB");
    std::vector<size_t> lens = {(size_t)1 << 31, ((size_t)1 << 31) - 9, 300, (size_t)c.r.below(1000), 70000 + (size_t)c.r.below(1000)};
    size_t total = 0;
    for (size_t x : lens) total += 4 + x;
    size_t stray = (size_t)c.r.below(4);
    Sparse sp(total + stray, Bytes());
    std::vector<Idx> want;
    size_t at = 0;
    for (size_t x : lens) {
      sp.put(at, Bytes{(uint8_t)(x >> 24), (uint8_t)(x >> 16), (uint8_t)(x >> 8), (uint8_t)x});
      want.push_back(Idx{at, at + 4, x});
      at += 4 + x;
    }
    auto got = conv(H265BitstreamParser::FindNaluIndicesExplicitFraming(sp.p, sp.n));
    c.eval(hash_str(show(want)));
    c.count("buffers of more than 4 GiB");
    if (!same(want, got)) c.violation("prefixes beyond 4 GiB", fmt("expected %s got %s", show(want).c_str(), show(got).c_str()));
    return;
  }
  Bytes b;
  std::vector<Unit> us;
  size_t k = (size_t)c.r.below(7);
  bool large = c.cur % 2500 == 21, many = large && c.r.chance(0.4);
  if (large && width != 0 && width < 3) width = 3 + (size_t)c.r.below(3);
  if (many) k = c.r.chance(0.5) ? 200 + (size_t)c.r.below(400) : 65000 + (size_t)c.r.below(2000);
  if (large) c.count(many ? "buffers of hundreds or many thousands of units" : "buffers with units of tens of kilobytes and more");
  for (size_t i = 0; i < k; i++) {
    Unit u;
    size_t n = many ? 2 + (size_t)c.r.below(3) : large ? wrap_size(c.r, c.cur % 100000 == 21 && width > 3 ? (size_t)1 << 24 : 65536) + (size_t)c.r.below(70000) :(size_t)(c.r.chance(0.9) ? c.r.logbelow(60) : c.r.logbelow(width == 1 ? 256 : 2000));
    if (n == 0 && c.r.chance(0.8)) n = 2;
    u.nal = c.r.bytes(n);
    us.push_back(u);
  }
  b = prefixed(us, width);
  // hostile endings and lengths
  switch (c.r.below(8)) {
    case 0: b.resize((size_t)c.r.below(b.size() + 1)); break;
    case 1: { Bytes t = c.r.bytes((size_t)c.r.below(width + 4)); b.insert(b.end(), t.begin(), t.end()); break; }
    case 2: {   // a huge length somewhere
      Bytes h(width);
      for (auto& x : h) x = c.r.chance(0.5) ? 0xff : (uint8_t)c.r.next();
      if (c.r.chance(0.3) && width > 1) { for (auto& x : h) x = 0; h[0] = (uint8_t)(1 << c.r.below(8)); }
      size_t at = (size_t)c.r.below(b.size() + 1);
      b.insert(b.begin() + (long)at, h.begin(), h.end());
      break;
    }
    case 3: if (!b.empty()) b[(size_t)c.r.below(b.size())] = (uint8_t)c.r.next(); break;
    case 4: {   // length off by a little at the end
      if (!us.empty() && width) {
        size_t last = us.back().nal.size(), at = b.size() - last - 1;
        b[at] = (uint8_t)(b[at] + (c.r.chance(0.5) ? 1 : 255));
      }
      break;
    }
    default: break;
  }
  c.note(fmt("width %zu", width).c_str(), b);
  Exact e(b);
  c.count(fmt("width %zu", width));
  auto want = ref_prefixed(b, width, false);
  c.eval(mix(hash_str(show(want)) + width, hash_bytes(b)), !b.empty());
  c.count("units split", want.size());
  auto s = H265BitstreamParser::ParseBitstreamNALULength(e.p, e.n, width, opts_all());
  if (!s) { c.violation("no stream result", "ParseBitstreamNALULength returned nothing"); return; }
  std::vector<Idx> w2, g2;
  for (auto& x : want) {
    Bytes u(b.begin() + (long)x.payload, b.begin() + (long)(x.payload + x.size));
    if (ref_unescape(u).size() >= 2) w2.push_back(Idx{0, x.payload, x.size});
    else c.count("units too short for a header");
  }
  for (auto& n : s->nal_units) g2.push_back(Idx{0, n->offset, n->length});
  if (!same(w2, g2)) c.violation("prefixed units", fmt("width %zu expected %s got %s", width, show(w2).c_str(), show(g2).c_str()));
  size_t end = want.empty() ? 0 : want.back().payload + want.back().size;
  if (end != b.size()) c.count("stopped before the end");
  else c.count("whole buffer used");
  if (width == 4) {
    // the index helper reports empty units too (0 is a valid size for it)
    auto w4 = ref_prefixed(b, 4, true);
    auto g4 = conv(H265BitstreamParser::FindNaluIndicesExplicitFraming(e.p, e.n));
    if (!same(w4, g4)) c.violation("explicit framing indices", fmt("expected %s got %s", show(w4).c_str(), show(g4).c_str()));
  }
  if (want.size() > 2) c.sample(fmt("width %zu: %s", width, show(want).c_str()));
}

static const char* ref_type_name(uint32_t t) {
  static const char* const n[64] = {
      "trail_n", "trail_r", "tsa_n", "tsa_r", "stsa_n", "stsa_r", "radl_n", "radl_r", "rasl_n", "rasl_r",
      "rsv_vcl_n10", "rsv_vcl_r11", "rsv_vcl_n12", "rsv_vcl_r13", "rsv_vcl_n14", "rsv_vcl_r15",
      "bla_w_lp", "bla_w_radl", "bla_n_lp", "idr_w_radl", "idr_n_lp", "cra", "rsv_irap_vcl22", "rsv_irap_vcl23",
      "rsv_vcl24", "rsv_vcl25", "rsv_vcl26", "rsv_vcl27", "rsv_vcl28", "rsv_vcl29", "rsv_vcl30", "rsv_vcl31",
      "vps", "sps", "pps", "aud", "eos", "eob", "fd", "prefix_sei", "suffix_sei",
      "rsv_nvcl41", "rsv_nvcl42", "rsv_nvcl43", "rsv_nvcl44", "rsv_nvcl45", "rsv_nvcl46", "rsv_nvcl47",
      "ap", "fu", "unspec50", "unspec51", "unspec52", "unspec53", "unspec54", "unspec55", "unspec56", "unspec57",
      "unspec58", "unspec59", "unspec60", "unspec61", "unspec62", "unspec63"};
  return n[t];
}
// a letter-by-letter comparison that ignores case and separators
static std::string norm(std::string s) {
  std::string o;
  for (char ch : s) if (isalnum((unsigned char)ch)) o += (char)tolower(ch);
  if (o.size() > 3 && o.substr(o.size() - 3) == "nut") o.resize(o.size() - 3);
  return o;
}
static int present(const NalPayload& p) {
  return (p.vps ? 1 : 0) | (p.sps ? 2 : 0) | (p.pps ? 4 : 0) | (p.slice_segment_layer ? 8 : 0) | (p.sei ? 16 : 0) | (p.aud ? 32 : 0);
}

VH_MODE(F03, 131072, 1310720, "one of the 65536 unit headers with a payload; distinct by header and payload kind") {
  // every header is visited (twice or more), with a different payload each round
  uint32_t h = (uint32_t)(c.cur % 65536);
  uint32_t f = h >> 15, t = (h >> 9) & 63, l = (h >> 3) & 63, tid = h & 7;
  uint8_t hb[2] = {(uint8_t)(h >> 8), (uint8_t)h};
  c.note(fmt("header %04x", h));
  auto chk = [&](const char* how, const NalHeader* n) {
    if (!n) { c.violation(std::string("header refused: ") + how, fmt("header %04x refused", h)); return; }
    if (n->forbidden_zero_bit != f || n->nal_unit_type != t || n->nuh_layer_id != l || n->nuh_temporal_id_plus1 != tid)
      c.violation(std::string("header value: ") + how,
                  fmt("header %04x decoded as %u %u %u %u", h, n->forbidden_zero_bit, n->nal_unit_type, n->nuh_layer_id, n->nuh_temporal_id_plus1));
  };
  {
    Exact e(hb, 2);
    chk("header parser", H265NalUnitHeaderParser::ParseNalUnitHeader(e.p, e.n).get());
    NalUnitType nt = (NalUnitType)99;
    if (!H265NalUnitHeaderParser::GetNalUnitType(e.p, e.n, nt)) c.violation("type refused", fmt("header %04x", h));
    else if ((uint32_t)nt != t) c.violation("type value", fmt("header %04x type %u", h, (unsigned)nt));
    size_t cut = (size_t)c.r.below(2);
    Exact s(hb, cut);
    if (H265NalUnitHeaderParser::ParseNalUnitHeader(s.p, s.n)) c.violation("short header accepted", fmt("%zu byte(s) of header %04x accepted", cut, h));
    if (H265NalUnitHeaderParser::GetNalUnitType(s.p, s.n, nt)) c.violation("short header accepted", fmt("type from %zu byte(s)", cut));
    PState st;
    if (H265NalUnitParser::ParseNalUnit(s.p, s.n, &st)) c.violation("short unit accepted", fmt("unit of %zu byte(s) accepted", cut));
  }
  // names and classes
  std::string nm = NalUnitTypeToString(t);
  if (norm(nm) != norm(ref_type_name(t))) c.violation("type name", fmt("type %u is named %s", t, nm.c_str()));
  bool slice = t <= 9 || (t >= 16 && t <= 21);
  if (IsSliceSegment(t) != slice) c.violation("slice class", fmt("type %u", t));
  if (IsNalUnitTypeVcl(t) != (t <= 31)) c.violation("vcl class", fmt("type %u", t));
  if (IsNalUnitTypeNonVcl(t) != (t >= 32 && t <= 63)) c.violation("non-vcl class", fmt("type %u", t));
  if (IsNalUnitTypeUnspecified(t) != (t >= 48)) c.violation("unspecified class", fmt("type %u", t));
  uint32_t big = 64 + (uint32_t)c.r.logbelow(UINT32_MAX - 63);
  if (IsSliceSegment(big) || IsNalUnitTypeVcl(big) || IsNalUnitTypeNonVcl(big) || IsNalUnitTypeUnspecified(big))
    c.violation("class of a non-type", fmt("%u", big));

  // the payload is selected by the type alone: a payload valid for the type gives exactly that structure ...
  Gen g(c.r);
  g.o.data = 0.5;
  g.o.pin["vui_parameters_present_flag"] = 0;
  g.o.pin["scaling_list_enabled_flag"] = 0;
  g.o.pin["pps_scaling_list_data_present_flag"] = 0;
  PState st;
  Unit u;
  Kind k = kind_of(t);
  if (k == K_SLICE) {
    Unit a = g.make_sps(), b = g.make_pps(a.sps->sps_seq_parameter_set_id);
    for (auto* x : {&a, &b}) H265NalUnitParser::ParseNalUnit(x->nal.data(), x->nal.size(), &st);
    u = g.make_slice((long)t);
  } else {
    u = g.make(k);
  }
  u.nut = t; u.fzb = f; u.layer = l; u.tid1 = tid;
  Bytes pay(u.raw.begin() + 2, u.raw.end());
  // ... and the payload of some other structure does not select another one
  bool foreign = c.r.chance(0.3);
  if (foreign) {
    Unit o = g.make((Kind)c.r.below(6));
    pay = Bytes(o.raw.begin() + 2, o.raw.end());
  }
  finish(u, pay);
  c.note("unit", u.nal);
  Exact e(u.nal);
  PState s2;
  s2.vps = st.vps; s2.sps = st.sps; s2.pps = st.pps;
  auto n = H265NalUnitParser::ParseNalUnit(e.p, e.n, &st, opts_all());
  c.eval(mix(h, foreign ? 1 : 0));
  c.count(std::string("payload kind ") + kKindName[k]);
  if (!n || !n->nal_unit_payload) { c.violation("unit refused", fmt("unit with header %04x refused", h)); return; }
  chk("unit parser", n->nal_unit_header.get());
  static const int allowed[] = {1, 2, 4, 8, 16, 32, 0};
  int got = present(*n->nal_unit_payload);
  if (got & ~allowed[k]) c.violation(std::string("wrong structure for ") + kKindName[k], fmt("type %u gives structures %d", t, got));
  if (!foreign && got != allowed[k]) c.violation(std::string("no structure for ") + kKindName[k], fmt("type %u gives none", t));
  if (!foreign) {
    std::string key, d = cmp_unit(u, n.get(), &key);
    if (!d.empty()) c.violation("unit " + key, d);
  }
  // the payload parser called with the type alone agrees
  BitBuffer bb(u.raw.data() + 2, u.raw.size() - 2);
  auto p = H265NalUnitPayloadParser::ParseNalUnitPayload(&bb, t, &s2);
  if (!p || present(*p) != got) c.violation("payload selection", fmt("type %u: payload parser disagrees with the unit parser", t));
  c.sample(fmt("header %04x: type %u (%s) layer %u", h, t, nm.c_str(), l));
}

// Documented checksum: ones' complement of the ones'-complement sum of big-endian 32-bit words, zero padded.
static uint32_t ref_checksum(const Bytes& b) {
  uint64_t sum = 0;
  for (size_t i = 0; i < b.size(); i += 4) {
    uint32_t w = 0;
    for (size_t k = 0; k < 4; k++) w = (w << 8) | (i + k < b.size() ? b[i + k] : 0);
    sum += w;
    while (sum >> 32) sum = (sum & 0xffffffffu) + (sum >> 32);
  }
  return ~(uint32_t)sum;
}
static std::string check_sum(const Nal& n, const Bytes& raw) {
  if (!n.checksum) return "no checksum although requested";
  uint32_t w = ref_checksum(raw);
  Bytes exp = {(uint8_t)(w >> 24), (uint8_t)(w >> 16), (uint8_t)(w >> 8), (uint8_t)w};
  int len = n.checksum->GetLength();
  if (len != 4) return fmt("checksum length %d", len);
  Bytes got((const uint8_t*)n.checksum->GetChecksum(), (const uint8_t*)n.checksum->GetChecksum() + len);
  if (got != exp) return fmt("checksum %s, expected %s", hex(got).c_str(), hex(exp).c_str());
  std::string p = n.checksum->GetPrintableChecksum();
  if (p != hex(exp)) return "printable checksum " + p;
  char buf[64] = {};
  n.checksum->fdump(buf, 64);
  if (hex(exp) != buf) return std::string("dumped checksum ") + buf;
  return "";
}
// All parsed values of a unit without the bookkeeping.
static std::string values(const Nal& n) {
  std::string s = capture([&](FILE* f) { n.nal_unit_header->fdump(f, -1); });
  return s + dump(*n.nal_unit_payload, n.nal_unit_header->nal_unit_type, opts_from(0));
}

VH_MODE(F04, 12000, 900000, "one unit of a generated stream in one framing; distinct by unit bytes and framing") {
  Gen g(c.r);
  g.o.wild = 0.1;
  g.o.pin["scaling_list_enabled_flag"] = c.r.chance(0.2);
  g.o.pin["vui_parameters_present_flag"] = c.r.chance(0.3);
  std::vector<Unit> us = g.stream(4 + (size_t)c.r.below(8), c.r.chance(0.5) ? 0.2 : 0);
  bool large = c.cur % 150 == 20;
  if (large) {
    // long units, so that offsets, lengths and what was parsed no longer fit in 16 bits; or very many units
    if (c.cur % 6000 != 170 && c.r.chance(0.8)) {
      size_t max = c.cur % 3000 == 20 ? (size_t)1 << 24 : 65536;
      us.insert(us.begin() + (long)c.r.below(us.size()), g.make_other(false));
      if (c.r.chance(0.3)) {
        g.o.pin["vps_extension_flag"] = 1;
        us.push_back(g.make_vps());
        g.o.pin.erase("vps_extension_flag");
        inflate(c.r, us.back(), 65530 + (size_t)c.r.below(20));
        c.count("parameter sets of tens of kilobytes");
      }
      int done = 0;
      for (auto& u : us)
        if (!u.broken && (u.kind == K_SLICE || u.kind == K_OTHER) && done < 3) { inflate(c.r, u, wrap_size(c.r, max) + (size_t)c.r.below(70000)); done++; }
      c.count("streams with units of tens of kilobytes and more");
    } else {
      size_t k = c.cur % 6000 == 170 ? 65600 : 200 + (size_t)c.r.below(400);
      while (us.size() < k) us.push_back(c.r.chance(0.5) ? g.make_aud() : g.make_other(false));
      c.count("streams of hundreds or many thousands of units");
    }
  }
  // units of extreme bytes exercise carries of the checksum
  if (c.r.chance(0.5)) {
    Unit u;
    u.nut = 38; u.kind = K_OTHER; u.tid1 = 7; u.layer = 63;
    Bytes p(2 + (size_t)c.r.logbelow(4000));
    int style = (int)c.r.below(3);
    for (auto& x : p) x = style == 0 ? 0xff : style == 1 ? (uint8_t)(c.r.chance(0.9) ? 0xff : c.r.next()) : (uint8_t)c.r.next();
    p.back() |= 1;
    if (p.size() >= 8 && c.r.chance(0.4)) {
      // one word chosen so that folding the carries gives about 2^32 again
      Bytes raw = {(uint8_t)(38 << 1 | 63 >> 5), (uint8_t)((63 & 31) << 3 | 7)};
      raw.insert(raw.end(), p.begin(), p.end());
      for (size_t k = 4; k < 8; k++) raw[k] = 0;
      uint64_t sum = 0;
      for (size_t i = 0; i < raw.size(); i++) sum += (uint64_t)raw[i] << (24 - 8 * (i % 4));
      uint64_t hi = sum >> 32, k = c.r.below(hi + 3);
      uint32_t word = 0xffffffffu - (uint32_t)k - (uint32_t)sum;
      for (size_t i = 0; i < 4; i++) p[2 + i] = (uint8_t)(word >> (24 - 8 * i));
      sum += word;
      c.count((sum >> 32) + (sum & 0xffffffffu) > 0xffffffffu ? "units whose folded checksum carries again" : "units whose folded checksum nearly carries again");
    }
    finish(u, p);
    us.insert(us.begin() + (long)c.r.below(us.size() + 1), u);
  }
  size_t width = (size_t)(2 + c.r.below(4));
  if (us.size() && c.r.chance(0.7)) width = 3;
  for (auto& u : us) while (width < 8 && u.nal.size() >> (8 * width)) width++;
  int framing = (int)c.r.below(2);
  std::vector<size_t> offs;
  Bytes b = framing == 0 ? annexb(c.r, us, &offs) : prefixed(us, width, &offs);
  c.note(framing == 0 ? "start codes" : fmt("width %zu", width).c_str(), b);
  Exact e(b);
  auto parse = [&](ParsingOptions o) {
    return framing == 0 ? H265BitstreamParser::ParseBitstream(e.p, e.n, o) : H265BitstreamParser::ParseBitstreamNALULength(e.p, e.n, width, o);
  };
  uint32_t bits = (uint32_t)c.r.below(32);
  auto s = parse(opts_from(bits));
  auto all = parse(opts_all());
  if (!s || !all || s->nal_units.size() != us.size() || all->nal_units.size() != us.size()) {
    c.violation("number of units", fmt("%zu units expected", us.size()));
    return;
  }
  for (size_t i = 0; i < us.size(); i++) {
    const Unit& u = us[i];
    const Nal &n = *s->nal_units[i], &a = *all->nal_units[i];
    c.eval(mix(hash_bytes(u.nal), (uint64_t)framing * 32 + bits));
    c.count(std::string("units ") + kKindName[u.kind] + (u.broken ? " broken" : ""));
    std::string w = fmt("unit %zu (%s%s)", i, kKindName[u.kind], u.broken ? ", broken" : "");
    if (n.offset != offs[i]) c.violation("offset", fmt("%s offset %zu expected %zu", w.c_str(), n.offset, offs[i]));
    if (n.length != u.nal.size()) c.violation("length", fmt("%s length %zu expected %zu", w.c_str(), n.length, u.nal.size()));
    if (a.offset != n.offset || a.length != n.length || a.parsed_length != n.parsed_length) c.violation("options change bookkeeping", w);
    if (n.parsed_length < 2 || n.parsed_length > u.raw.size()) c.violation("parsed length out of bounds", fmt("%s parsed length %zu of %zu", w.c_str(), n.parsed_length, u.raw.size()));
    if (!u.broken) {
      size_t want = 0;
      if (u.kind == K_SLICE) want = 2 + (u.need_bits + 7) / 8;
      else if (u.kind == K_VPS || u.kind == K_SPS || u.kind == K_PPS || u.kind == K_AUD) want = u.raw.size();
      else if (u.kind == K_OTHER) want = 2;
      if (want && n.parsed_length != want) c.violation(std::string("parsed length of ") + kKindName[u.kind], fmt("%s parsed length %zu expected %zu of %zu", w.c_str(), n.parsed_length, want, u.raw.size()));
    }
    if (bits & 8) {
      std::string d = check_sum(n, u.raw);
      if (!d.empty()) c.violation("checksum", w + ": " + d);
      c.count("checksums compared");
    } else if (n.checksum) {
      c.violation("checksum not requested", w);
    }
    std::string d = check_sum(a, u.raw);
    if (!d.empty()) c.violation("checksum", w + ": " + d);
    if (values(n) != values(a)) c.violation("options change values", w);
    std::string key;
    d = cmp_unit(u, &n, &key);
    if (!d.empty()) c.violation("unit " + key, d);
  }
  // a checksum taken somewhere inside a buffer covers the rest and leaves the position alone
  {
    Bytes r = c.r.bytes((size_t)c.r.below(40));
    Exact x(r);
    BitBuffer bb(x.p, x.n);
    size_t skip = (size_t)c.r.below(r.size() + 1);
    bb.ConsumeBytes(skip);
    auto cs = NaluChecksum::GetNaluChecksum(&bb);
    size_t by = 0, bi = 0;
    bb.GetCurrentOffset(&by, &bi);
    if (by != skip || bi != 0) c.violation("checksum moves the position", fmt("%zu -> %zu.%zu", skip, by, bi));
    Bytes rest(r.begin() + (long)skip, r.end());
    uint32_t w = ref_checksum(rest);
    if (!cs || cs->GetPrintableChecksum() != fmt("%08x", w)) c.violation("checksum of a buffer", fmt("expected %08x", w));
  }
  c.sample(fmt("framing %d, options %u: %s", framing, bits, describe(us).c_str()));
}

VH_MODE(F05, 2000, 300000, "one generated stream carried in every container; distinct by the units") {
  Gen g(c.r);
  g.o.wild = 0.08;
  g.o.pin["scaling_list_enabled_flag"] = c.r.chance(0.2);
  std::vector<Unit> us = g.stream(4 + (size_t)c.r.below(9), c.r.chance(0.4) ? 0.15 : 0, c.r.chance(0.8));
  for (auto& u : us) if (u.nal.size() > 65000) return;
  // now and then a unit that no 16-bit size can describe
  bool large = c.r.chance(0.02);
  if (large) inflate(c.r, us[(size_t)c.r.below(us.size())], 65536 + (size_t)c.r.below(40000));
  large = false;
  for (auto& u : us) if (u.nal.size() > 65535) large = true;
  if (large) c.count("streams with a unit of more than 65535 bytes");
  bool rtp_ok = true;
  for (auto& u : us) if (u.nut >= 48) rtp_ok = false;
  c.note(("units " + describe(us)).c_str(), prefixed(us, 3));
  uint64_t h = 5;
  for (auto& u : us) { h = mix(h, hash_bytes(u.nal)); c.count(std::string("units ") + kKindName[u.kind] + (u.broken ? " broken" : "")); if (u.nal.size() != u.raw.size()) c.count("units with emulation prevention"); }
  c.eval(h);
  ParsingOptions o = opts_from((uint32_t)c.r.below(32));
  std::vector<std::string> ref;
  std::string ref_state;
  // checks one container's results against the model and against the first container's
  auto check = [&](const std::string& how, const std::vector<std::pair<const NalHeader*, const NalPayload*>>& v, const PState& st) {
    c.count("container " + how);
    if (v.size() != us.size()) { c.violation(how + ": number of units", fmt("%zu units expected, %zu reported", us.size(), v.size())); return; }
    std::vector<std::string> mine;
    for (size_t i = 0; i < v.size(); i++) {
      std::string key, d = cmp_header(us[i], v[i].first, &key);
      if (d.empty()) d = cmp_payload(us[i], v[i].second, &key);
      if (!d.empty()) { c.violation(how + ": unit " + key, fmt("unit %zu: %s", i, d.c_str())); return; }
      mine.push_back(dump(*v[i].second, v[i].first->nal_unit_type, opts_from(0)));
    }
    std::string key, d = cmp_state(g, st, &key);
    if (!d.empty()) c.violation(how + ": " + key, d);
    std::string ds = dump_state(st);
    if (ref.empty()) { ref = mine; ref_state = ds; }
    else {
      for (size_t i = 0; i < ref.size(); i++) if (ref[i] != mine[i]) { c.violation(how + ": differs from the start-code stream", fmt("unit %zu\n%s\n%s", i, ref[i].c_str(), mine[i].c_str())); return; }
      if (ds != ref_state) c.violation(how + ": state differs from the start-code stream", "parser states differ");
    }
  };
  typedef std::vector<std::pair<const NalHeader*, const NalPayload*>> View;
  auto view = [](const std::vector<std::unique_ptr<Nal>>& v) {
    View o2;
    for (auto& n : v) o2.emplace_back(n ? n->nal_unit_header.get() : nullptr, n ? n->nal_unit_payload.get() : nullptr);
    return o2;
  };
  {
    PState st;
    Exact e(annexb(c.r, us));
    auto s = H265BitstreamParser::ParseBitstream(e.p, e.n, &st, o);
    check("start codes", view(s->nal_units), st);
  }
  {
    PState st;
    std::vector<std::unique_ptr<Stream>> parts;
    View v;
    for (size_t i = 0; i < us.size();) {
      size_t k = 1 + (size_t)c.r.below(3);
      std::vector<Unit> part(us.begin() + (long)i, us.begin() + (long)std::min(us.size(), i + k));
      i += part.size();
      Exact e(annexb(c.r, part));
      parts.push_back(H265BitstreamParser::ParseBitstream(e.p, e.n, &st, o));
      for (auto& x : view(parts.back()->nal_units)) v.push_back(x);
    }
    check("chunks", v, st);
  }
  {
    PState st;
    size_t w = 3 + (size_t)c.r.below(6);
    Exact e(prefixed(us, w));
    auto s = H265BitstreamParser::ParseBitstreamNALULength(e.p, e.n, w, &st, o);
    check("length prefix", view(s->nal_units), st);
  }
  for (int how = 0; how < 5; how++) {
    PState st;
    std::vector<std::unique_ptr<Nal>> v;
    std::vector<std::unique_ptr<Stream>> keep;
    static const char* const nm[] = {"single unit", "unescaped unit", "unit from a bit reader", "width zero", "unit without options"};
    for (auto& u : us) {
      Exact esc(u.nal), raw(u.raw);
      if (how == 0) v.push_back(H265NalUnitParser::ParseNalUnit(esc.p, esc.n, &st, o));
      else if (how == 1) v.push_back(H265NalUnitParser::ParseNalUnitUnescaped(raw.p, raw.n, &st, o));
      else if (how == 2) { BitBuffer bb(raw.p, raw.n); v.push_back(H265NalUnitParser::ParseNalUnit(&bb, &st, o)); }
      else if (how == 3) {
        auto s = H265BitstreamParser::ParseBitstreamNALULength(esc.p, esc.n, 0, &st, o);
        v.push_back(s && s->nal_units.size() == 1 ? std::move(s->nal_units[0]) : nullptr);
      } else v.push_back(H265NalUnitParser::ParseNalUnit(esc.p, esc.n, &st));
    }
    check(nm[how], view(v), st);
  }
  if (rtp_ok) {
    {
      PState st;
      std::vector<std::unique_ptr<H265RtpParser::RtpState>> v;
      View w;
      for (auto& u : us) {
        Exact esc(u.nal);
        v.push_back(H265RtpParser::ParseRtp(esc.p, esc.n, &st));
        auto* s = v.back() ? v.back()->rtp_single.get() : nullptr;
        w.emplace_back(s ? s->nal_unit_header.get() : nullptr, s ? s->nal_unit_payload.get() : nullptr);
      }
      check("RTP single", w, st);
    }
    if (!large) {
      PState st;
      std::vector<std::unique_ptr<H265RtpParser::RtpState>> v;
      View w;
      for (size_t i = 0; i < us.size();) {
        size_t k = 1 + (size_t)c.r.below(5);
        std::vector<Unit> part(us.begin() + (long)i, us.begin() + (long)std::min(us.size(), i + k));
        i += part.size();
        Exact e(rtp_ap(part));
        v.push_back(H265RtpParser::ParseRtp(e.p, e.n, &st));
        auto* a = v.back() ? v.back()->rtp_ap.get() : nullptr;
        if (!a || a->nal_unit_headers.size() != a->nal_unit_payloads.size()) continue;
        for (size_t j = 0; j < a->nal_unit_headers.size(); j++) w.emplace_back(a->nal_unit_headers[j].get(), a->nal_unit_payloads[j].get());
      }
      check("RTP aggregation", w, st);
    }
  }
  if (!large) {
    PState st;
    std::vector<std::vector<Unit>> arrays;
    for (auto& u : us) { if (arrays.empty() || c.r.chance(0.6)) arrays.emplace_back(); arrays.back().push_back(u); }
    IO io(c.r);
    Box want;
    syn_hvcc(io, want, arrays);
    Exact e(io.w.b);
    auto b = H265ConfigurationBoxParser::ParseConfigurationBox(e.p, e.n, &st, o);
    View w;
    if (b) for (auto& a : b->nalUnit) for (auto& n : a) w.emplace_back(n ? n->nal_unit_header.get() : nullptr, n ? n->nal_unit_payload.get() : nullptr);
    check("configuration box", w, st);
  }
  c.sample(describe(us));
}
}  // namespace vh
