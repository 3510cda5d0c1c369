// O01, O02: the text dumps.
#include <errno.h>
#include <string.h>

#include <algorithm>
#include <functional>

#include "build.h"

namespace vh {

static void tune(Ctx& c, Opts& o) {
  o.wild = c.r.chance(0.5) ? 0.05 : 0.3;
  o.max_vps_id = (int)c.r.below(3);
  o.max_sps_id = (int)c.r.below(3);
  o.max_pps_id = (int)c.r.below(3);
  o.pin["scaling_list_enabled_flag"] = c.r.chance(0.2);
  o.pin["pps_scaling_list_data_present_flag"] = c.r.chance(0.2);
  o.budget = 20000;
}

static std::vector<std::string> split(const std::string& s) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i < s.size()) {
    while (i < s.size() && isspace((unsigned char)s[i])) i++;
    size_t b = i;
    while (i < s.size() && !isspace((unsigned char)s[i])) i++;
    if (i > b) v.push_back(s.substr(b, i - b));
  }
  return v;
}
// name without indices
static std::string plain(const std::string& s) {
  std::string o;
  int in = 0;
  for (char ch : s) { if (ch == '[') in++; if (!in) o += ch; if (ch == ']') in--; }
  return o;
}
// Values by name; a list's values go under the innermost name.  Returns an error text for a malformed dump.
typedef std::map<std::string, std::vector<std::string>> Values;
static std::string read_dump(const std::string& s, Values* out) {
  auto t = split(s);
  std::vector<std::string> open;
  std::string last;   // innermost name in force
  for (size_t i = 0; i < t.size(); i++) {
    auto& x = t[i];
    if (x == "{") { open.push_back(open.empty() ? "" : open.back()); continue; }
    if (x == "}") {
      if (open.empty()) return "closing brace without an opening one";
      open.pop_back();
      continue;
    }
    if (x.size() > 1 && x.back() == ':') {
      if (i + 1 < t.size() && t[i + 1] == "{") { open.push_back(plain(x.substr(0, x.size() - 1))); (*out)[open.back()]; i++; continue; }
      if (i + 1 >= t.size() || t[i + 1] == "{" || t[i + 1] == "}" || t[i + 1].back() == ':') return "name without a value: " + x;
      (*out)[plain(x.substr(0, x.size() - 1))].push_back(t[++i]);
      continue;
    }
    if (i + 1 < t.size() && t[i + 1] == "{") { open.push_back(x); (*out)[x]; i++; continue; }
    // a bare token: a list value, or an unnamed qualifier
    if (open.empty()) return "stray token " + x;
    (*out)[open.back()].push_back(x);
  }
  if (!open.empty()) return "unclosed brace";
  return "";
}
static bool to_int(const std::string& s, int64_t* v) {
  char* e = nullptr;
  errno = 0;
  bool hex = s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X');
  unsigned long long u;
  if (hex) { u = strtoull(s.c_str(), &e, 16); *v = (int64_t)u; }
  else if (s[0] == '-') *v = strtoll(s.c_str(), &e, 10);
  else { u = strtoull(s.c_str(), &e, 10); *v = (int64_t)u; }
  return e && *e == 0 && errno == 0;
}

// Elements shown although they were not coded, with the value the standard infers for them.
static bool inferred_value(const std::string& n, int64_t* v) {
  static const char* const zero[] = {"low_delay_hrd_flag", "elemental_duration_in_tc_minus1", "cpb_cnt_minus1", "scaling_list_pred_mode_flag",
                                     "scaling_list_pred_matrix_id_delta", "scaling_list_dc_coef_minus8", "inbld_flag"};
  static const char* const one[] = {"fixed_pic_rate_within_cvs_flag", "use_delta_flag", "cprms_present_flag"};
  for (auto x : zero) if (n == x) { *v = 0; return true; }
  for (auto x : one) if (n == x) { *v = 1; return true; }
  *v = 0;
  return n.find("reserved_zero_") == 0 || (n.size() > 16 && n.find("_constraint_flag") == n.size() - 16);
}
// The shown values are the decoded ones in order, perhaps with inferred ones between them.
static const char* judge(const std::string& name, const std::vector<int64_t>& shown, const std::vector<int64_t>& want) {
  if (shown == want) return nullptr;
  if (shown.size() < want.size()) return "fewer values";
  size_t j = 0;
  for (size_t i = 0; i < shown.size() && j < want.size(); i++) if (shown[i] == want[j]) j++;
  if (j < want.size()) return "other values";
  int64_t inf;
  if (!inferred_value(name, &inf)) return "more values";
  std::map<int64_t, long> n;
  for (auto x : shown) n[x]++;
  for (auto x : want) n[x]--;
  n[inf] = 0;
  for (auto& kv : n) if (kv.second) return "more values";
  return nullptr;
}

// Dumps of what carries units: configuration records and packets.  The units inside are opaque ones, so that no name is
// shared with their contents; a packet's payload dump is looked for as a whole.
static void carriers(Ctx& c, Gen& g) {
  PState st;
  std::vector<std::vector<Unit>> arrays((size_t)c.r.below(4));
  std::vector<Unit> all;
  for (auto& a : arrays)
    for (size_t i = (size_t)c.r.below(4); i; i--) {
      Unit u = g.make_other();
      if (c.r.chance(0.1)) { u = Unit(); u.nut = 32; u.nal = Bytes((size_t)c.r.below(2), 9); }
      else if (u.nal.size() > 65535) continue;
      else all.push_back(u);
      a.push_back(u);
    }
  typedef std::map<std::string, std::vector<int64_t>> Want;
  auto head = [](Want& w, const Bytes& p) {
    w["forbidden_zero_bit"].push_back(p[0] >> 7);
    w["nal_unit_type"].push_back((p[0] >> 1) & 63);
    w["nuh_layer_id"].push_back((p[0] & 1) << 5 | p[1] >> 3);
    w["nuh_temporal_id_plus1"].push_back(p[1] & 7);
  };
  auto check = [&](const char* what, const std::string& t, const Want& want) {
    Values got;
    std::string err = read_dump(t, &got);
    if (!err.empty()) { c.violation(std::string("malformed dump of a ") + what, err + ": " + t.substr(0, 600)); return; }
    for (auto& kv : want) {
      std::vector<int64_t> vals;
      for (auto& s : got[kv.first]) { int64_t v = -1; if (!to_int(s, &v)) c.violation(std::string(what) + " not a number: " + kv.first, s); vals.push_back(v); }
      c.count("values of carriers compared", vals.size());
      if (vals == kv.second) continue;
      std::string a, b;
      for (auto v : kv.second) a += fmt(" %lld", (long long)v);
      for (auto v : vals) b += fmt(" %lld", (long long)v);
      c.violation(std::string(what) + ": " + kv.first, fmt("shown%s, decoded%s", b.substr(0, 500).c_str(), a.substr(0, 500).c_str()));
    }
    c.count(std::string("dumps read ") + what);
  };
  int in = c.r.chance(0.5) ? -1 : (int)c.r.below(3);
  {
    IO io(c.r);
    io.wild = 0.4;
    Box b;
    syn_hvcc(io, b, arrays);
    c.note("record", io.w.b);
    c.eval(hash_bytes(io.w.b));
    Exact e(io.w.b);
    auto box = H265ConfigurationBoxParser::ParseConfigurationBox(e.p, e.n, &st, opts_all());
    if (box) {
      Want w;
      for (auto& el : io.tr) w[plain(el.path)].push_back(el.val);
      for (auto& u : all) head(w, u.nal);
      check("configuration record", capture([&](FILE* f) { box->fdump(f, in, opts_all()); }), w);
    } else c.count("units not parsed as expected");
  }
  auto packet = [&](const char* what, const Bytes& p, std::function<void(Want&, H265RtpParser::RtpState&)> more) {
    c.note(what, p);
    c.eval(hash_bytes(p));
    Exact e(p);
    auto r = H265RtpParser::ParseRtp(e.p, e.n, &st);
    if (!r) { c.count("units not parsed as expected"); return; }
    Want w;
    head(w, p);
    if (((p[0] >> 1) & 63) <= 49) head(w, p);
    more(w, *r);
    check(what, capture([&](FILE* f) { r->fdump(f, in, opts_all()); }), w);
  };
  if (!all.empty() && all.size() < 8) {
    size_t sum = 0;
    for (auto& u : all) sum += u.nal.size();
    if (sum < 60000)
      packet("aggregation packet", rtp_ap(all), [&](Want& w, H265RtpParser::RtpState&) {
        for (auto& u : all) { w["nal_unit_size"].push_back((int64_t)u.nal.size()); head(w, u.nal); }
      });
  }
  Unit u = c.r.chance(0.3) ? g.make_other() : g.make((Kind)c.r.below(7));
  if (u.nut <= 47) packet("packet", u.nal, [&](Want&, H265RtpParser::RtpState& r) {
    if (!r.rtp_single || !r.rtp_single->nal_unit_payload) return;
    auto a = split(dump(*r.rtp_single->nal_unit_payload, u.nut, opts_all()));
    auto b = split(capture([&](FILE* f) { r.fdump(f, in, opts_all()); }));
    if (std::search(b.begin(), b.end(), a.begin(), a.end()) == b.end()) c.violation("packet: payload not shown", hex(u.nal, 200));
  });
  if (u.nal.size() > 3) {
    bool s = c.r.chance(0.6), e2 = !s && c.r.chance(0.5);
    packet("fragment", rtp_fu(u, 2, u.nal.size(), s, e2), [&](Want& w, H265RtpParser::RtpState& r) {
      w["s_bit"] = {s};
      w["e_bit"] = {e2};
      w["fu_type"] = {(int64_t)u.nut};
      if (!s || !r.rtp_fu || !r.rtp_fu->nal_unit_payload) return;
      auto a = split(dump(*r.rtp_fu->nal_unit_payload, u.nut, opts_all()));
      auto b = split(capture([&](FILE* f) { r.fdump(f, in, opts_all()); }));
      if (std::search(b.begin(), b.end(), a.begin(), a.end()) == b.end()) c.violation("fragment: payload not shown", hex(u.nal, 200));
    });
  }
}

VH_MODE(O01, 12000, 900000, "one unit and its dump; distinct by its bits") {
  Gen g(c.r);
  tune(c, g.o);
  PState st;
  std::vector<Unit> us = {g.make(K_VPS), g.make(K_SPS), g.make(K_PPS), g.make(K_SLICE), g.make(K_SEI), g.make(K_AUD)};
  if (c.r.chance(0.5)) us.push_back(g.make(K_SLICE));
  if (c.r.chance(0.5)) us.push_back(g.make(K_SEI));
  us.push_back(g.make_other());
  std::string hist;
  for (auto& u : us) {
    hist += " " + hex(u.nal, 2000);
    c.note("units" + hist);
    c.eval(hash_bytes(u.raw));
    Exact e(u.nal);
    auto n = H265NalUnitParser::ParseNalUnit(e.p, e.n, &st, opts_all());
    std::string key, d = cmp_unit(u, n.get(), &key);
    if (!d.empty()) { c.count("units not parsed as expected"); continue; }   // another property's concern
    std::string t = dump(*n, opts_all(), c.r.chance(0.5) ? -1 : (int)c.r.below(3));
    Values got;
    std::string err = read_dump(t, &got);
    if (!err.empty()) { c.violation("malformed dump", err + ": " + t.substr(0, 600)); continue; }
    // header
    std::map<std::string, std::vector<int64_t>> want;
    want["forbidden_zero_bit"] = {u.fzb};
    want["nal_unit_type"] = {u.nut};
    want["nuh_layer_id"] = {u.layer};
    want["nuh_temporal_id_plus1"] = {u.tid1};
    if (!u.broken)
      for (auto& el : u.tr) {
        if (el.nodump || el.kind == 'f') continue;
        // of several sequence-level timing structures only the last one is kept
        if (u.vps && u.vps->vps_num_hrd_parameters > 1 && el.path.find("hrd_parameters.") == 0) continue;
        want[el.name].push_back(el.val);
      }
    const Sld* sl = u.broken ? nullptr : u.sps ? u.sps->scaling_list_data.get() : u.pps ? u.pps->scaling_list_data.get() : nullptr;
    if (sl)
      for (auto& a : sl->ScalingList) for (auto& b : a) for (auto& x : b) want["ScalingList"].push_back(x);
    for (auto& kv : want) {
      auto it = got.find(kv.first);
      c.count("names compared");
      if (it == got.end()) { c.violation(std::string(kKindName[u.kind]) + " element not shown: " + kv.first, t.substr(0, 3000)); continue; }
      std::vector<int64_t> vals;
      bool ok = true;
      for (auto& s : it->second) { int64_t v; if (!to_int(s, &v)) ok = false; else vals.push_back(v); }
      c.count("values compared", vals.size());
      if (kv.first == "payload_size" && vals.size() == 2) vals.resize(1);   // the bytes kept are counted again
      const char* how = ok ? judge(kv.first, vals, kv.second) : "not a number";
      if (how) {
        std::string a, b;
        for (auto v : kv.second) a += fmt(" %lld", (long long)v);
        for (auto& v : it->second) b += " " + v;
        c.violation(std::string(kKindName[u.kind]) + " " + how + ": " + kv.first, fmt("shown%s, decoded%s", b.substr(0, 500).c_str(), a.substr(0, 500).c_str()));
      }
    }
    // profile names, in order
    const Ptl* pt = u.broken ? nullptr : u.vps ? u.vps->profile_tier_level.get() : u.sps ? u.sps->profile_tier_level.get() : nullptr;
    if (pt) {
      std::vector<ProfileType> names;
      if (pt->general) names.push_back(pt->general->profile_type);
      for (auto& s : pt->sub_layer) if (s) names.push_back(s->profile_type);
      std::vector<std::string> shown;
      for (size_t i = 0; (i = t.find("profile: ", i)) != std::string::npos; i++) {
        if (i && (isalnum((unsigned char)t[i - 1]) || t[i - 1] == '_')) continue;
        size_t e2 = t.find_first_of(":\n", t.find("progressive_source_flag", i));
        std::string v = t.substr(i + 9, e2 == std::string::npos ? 0 : t.find("progressive_source_flag", i) - i - 9);
        shown.push_back(v);
      }
      if (shown.size() != names.size()) c.violation("profile name not shown", fmt("%zu names for %zu profiles", shown.size(), names.size()));
      else
        for (size_t i = 0; i < names.size(); i++) {
          c.count("profile names compared");
          if (!is_profile_name(shown[i], names[i])) c.violation("profile name", fmt("profile %u shown as %s", (unsigned)names[i], shown[i].c_str()));
        }
    }
    // the unit's own numbers
    auto only = [&](const char* nm, const std::string& w) {
      auto it = got.find(nm);
      if (it == got.end() || it->second.empty()) c.violation(std::string("number of the unit not shown: ") + nm, t.substr(0, 300));
      else if (it->second[0] != w) c.violation(std::string("number of the unit: ") + nm, it->second[0] + " shown for " + w);
    };
    n->offset = (size_t)c.r.logbelow(1ull << 40);
    n->length = (size_t)c.r.logbelow(1ull << 40);
    got.clear();
    t = dump(*n, opts_all(), -1);
    err = read_dump(t, &got);
    if (!err.empty()) { c.violation("malformed dump", err + ": " + t.substr(0, 600)); continue; }
    only("offset", fmt("0x%08zx", n->offset));
    only("length", fmt("%zu", n->length));
    only("parsed_length", fmt("%zu", n->parsed_length));
    if (n->checksum) only("checksum", "0x" + n->checksum->GetPrintableChecksum());
    c.count(std::string("dumps read ") + kKindName[u.kind]);
  }
  if (c.r.chance(0.4)) carriers(c, g);
  c.sample(describe(us));
}

// One result of the library that can be dumped.
struct Shown {
  std::string what;
  std::function<std::string(int, ParsingOptions)> dump;
  size_t units = 0;
  bool takes_options = true;
};
static std::vector<std::string> without(const std::vector<std::string>& t, const ParsingOptions& o) {
  std::vector<std::string> v;
  for (size_t i = 0; i < t.size(); i++) {
    bool drop = (t[i] == "offset:" && !o.add_offset) || (t[i] == "length:" && !o.add_length) || (t[i] == "parsed_length:" && !o.add_parsed_length) ||
                (t[i] == "checksum:" && !o.add_checksum) || ((t[i] == "width:" || t[i] == "height:") && !o.add_resolution);
    if (drop) i++; else v.push_back(t[i]);
  }
  return v;
}
// where two token lists part
static std::string part(const std::vector<std::string>& a, const std::vector<std::string>& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  std::string s = fmt("token %zu:", i);
  for (size_t j = i > 3 ? i - 3 : 0; j < i + 3; j++) s += fmt(" [%s|%s]", j < a.size() ? a[j].c_str() : "", j < b.size() ? b[j].c_str() : "");
  return s;
}
static void check_dump(Ctx& c, const Shown& x) {
  auto all = opts_all();
  std::string one = x.dump(-1, all);
  auto t = split(one);
  Values v;
  std::string err = read_dump(one, &v);
  if (!err.empty()) { c.violation("malformed dump: " + x.what, err + ": " + one.substr(0, 500)); return; }
  if (one.find('\n') != std::string::npos) { c.violation("line break in a one-line dump: " + x.what, one.substr(0, 500)); return; }
  for (char ch : one) if ((unsigned char)ch < 32 || (unsigned char)ch > 126) { c.violation("unprintable character: " + x.what, one.substr(0, 500)); return; }
  if (x.dump(-1, all) != one) c.violation("dumping twice differs: " + x.what, one.substr(0, 500));
  int at = (int)c.r.below(c.r.chance(0.2) ? 24 : 4);
  std::string many = x.dump(at, all);
  auto m = split(many);
  c.count("indented dumps compared");
  if (m != t) c.violation("indented dump has other tokens: " + x.what, part(t, m));
  // each line is indented by its depth
  size_t depth = (size_t)at, pos = 0, line = 0;
  while (pos < many.size()) {
    size_t e = many.find('\n', pos);
    std::string l = many.substr(pos, e == std::string::npos ? std::string::npos : e - pos);
    pos = e == std::string::npos ? many.size() : e + 1;
    size_t sp = l.find_first_not_of(' ');
    if (sp == std::string::npos) continue;   // nothing in a structure
    auto lt = split(l);
    size_t want = depth - (lt[0] == "}" && depth > 0 ? 1 : 0);
    if (line > 0 && sp != 2 * want) { c.violation("indentation: " + x.what, fmt("line %zu '%s' expected %zu spaces", line, l.substr(0, 100).c_str(), 2 * want)); break; }
    for (auto& y : lt) { if (y == "{") depth++; if (y == "}") depth--; }
    line++;
  }
  c.maximum("lines in a dump", line);
  // counts of the optional items
  if (x.units) {
    auto n = [&](const char* k) { auto it = v.find(k); return it == v.end() ? (size_t)0 : it->second.size(); };
    if (n("offset") != x.units || n("length") != x.units || n("parsed_length") != x.units || n("checksum") != x.units)
      c.violation("optional items missing: " + x.what, fmt("%zu units: %zu offsets %zu lengths %zu parsed lengths %zu checksums", x.units, n("offset"), n("length"), n("parsed_length"), n("checksum")));
  }
  if (!x.takes_options) return;
  for (uint32_t b = 0; b < 32; b++) {
    if (b && b != 31 && (b & (b - 1)) && ((31 - b) & (30 - b)) && c.r.chance(0.7)) continue;   // always: none, one alone, all but one
    auto o = opts_from(b);
    auto want = without(t, o);
    auto got = split(x.dump(b % 2 ? -1 : 0, o));
    c.count("option combinations compared");
    if (want != got) { c.violation(fmt("option set %u%u%u%u%u: %s", o.add_offset, o.add_length, o.add_parsed_length, o.add_checksum, o.add_resolution, x.what.c_str()), part(want, got)); break; }
  }
}

VH_MODE(O02, 1500, 250000, "one history with all its dumps; distinct by the units") {
  Gen g(c.r);
  tune(c, g.o);
  g.o.budget = 6000;
  PState st;
  std::vector<Unit> us = g.stream(3 + (size_t)c.r.below(5), 0.1);
  us.push_back(g.make((Kind)c.r.below(7)));
  for (auto& u : us) { if (c.r.chance(0.1) && u.nal.size() > 3) { Bytes t(u.nal.begin() + 2, u.nal.end()); mutate(c.r, t); u.nal.resize(2); u.nal.insert(u.nal.end(), t.begin(), t.end()); } }
  std::string hist = "units";
  uint64_t h = 3;
  for (auto& u : us) { hist += " " + hex(u.nal, 2000); h = mix(h, hash_bytes(u.nal)); }
  c.note(hist);
  c.eval(h);
  bool parse_all = c.r.chance(0.6);
  auto po = parse_all ? opts_all() : opts_from((uint32_t)c.r.below(32));
  std::vector<Shown> xs;
  std::vector<std::unique_ptr<Nal>> nals;
  for (auto& u : us) {
    Exact e(u.nal);
    nals.push_back(H265NalUnitParser::ParseNalUnit(e.p, e.n, &st, po));
    auto* n = nals.back().get();
    if (!n) continue;
    Shown s;
    s.what = fmt("%s unit", kKindName[kind_of(n->nal_unit_header->nal_unit_type)]);
    s.dump = [n](int in, ParsingOptions o) { return capture([&](FILE* f) { n->fdump(f, in, o); }); };
    s.units = po.add_checksum ? 1 : 0;
    xs.push_back(s);
    auto* p = n->nal_unit_payload.get();
    Shown q;
    q.takes_options = false;
    auto add = [&](const char* what, std::function<void(FILE*, int, ParsingOptions)> f, bool opt) {
      q.what = what;
      q.takes_options = opt;
      q.dump = [f](int in, ParsingOptions o) { return capture([&](FILE* fp) { f(fp, in, o); }); };
      xs.push_back(q);
    };
    if (p->vps) { auto* y = p->vps.get(); add("vps", [y](FILE* f, int in, ParsingOptions) { y->fdump(f, in); }, false); }
    if (p->sps) { auto* y = p->sps.get(); add("sps", [y](FILE* f, int in, ParsingOptions o) { y->fdump(f, in, o); }, true); }
    if (p->pps) { auto* y = p->pps.get(); add("pps", [y](FILE* f, int in, ParsingOptions) { y->fdump(f, in); }, false); }
  }
  {
    // several units of one stream share the options
    PState s2;
    Exact e(annexb(c.r, us));
    auto s = H265BitstreamParser::ParseBitstream(e.p, e.n, &s2, po);
    for (auto& n : s->nal_units) {
      auto* y = n.get();
      Shown z;
      z.what = "unit of a stream";
      z.dump = [y](int in, ParsingOptions o) { return capture([&](FILE* f) { y->fdump(f, in, o); }); };
      z.units = po.add_checksum ? 1 : 0;
      if (c.r.chance(0.3)) check_dump(c, z);
    }
    // the stream's own dump is its units' dumps, with the options of the stream
    std::string w, t = capture([&](FILE* f) { s->fdump(f, -1); });
    for (auto& n : s->nal_units) w += capture([&](FILE* f) { n->fdump(f, -1, po); }) + "\n";
    c.count("stream dumps compared");
    if (split(t) != split(w)) c.violation("stream dump", part(split(w), split(t)));
    if (std::count(t.begin(), t.end(), '\n') != (long)s->nal_units.size()) c.violation("one line per unit of a stream", fmt("%zu units", s->nal_units.size()));
  }
  std::vector<std::unique_ptr<H265RtpParser::RtpState>> rtps;
  auto rtp = [&](const Bytes& b, const char* what) {
    Exact e(b);
    rtps.push_back(H265RtpParser::ParseRtp(e.p, e.n, &st));
    auto* y = rtps.back().get();
    if (!y) return;
    Shown z;
    z.what = what;
    z.dump = [y](int in, ParsingOptions o) { return capture([&](FILE* f) { y->fdump(f, in, o); }); };
    xs.push_back(z);
  };
  rtp(us[c.r.below(us.size())].nal, "packet");
  rtp(rtp_ap(us), "aggregation packet");
  auto& fu = us[c.r.below(us.size())];
  if (fu.nal.size() > 3) rtp(rtp_fu(fu, 2, fu.nal.size(), true, false), "fragment");
  IO io(c.r);
  Box b;
  std::vector<std::vector<Unit>> arrays(1 + (size_t)c.r.below(3));
  for (auto& u : us) arrays[c.r.below(arrays.size())].push_back(u);
  if (c.r.chance(0.3)) { Unit u; u.nal = Bytes(1, 7); arrays[0].push_back(u); }
  syn_hvcc(io, b, arrays);
  std::shared_ptr<Box> box;
  {
    Exact e(io.w.b);
    box = H265ConfigurationBoxParser::ParseConfigurationBox(e.p, e.n, &st, po);
  }
  if (box) {
    auto* y = box.get();
    Shown z;
    z.what = "configuration box";
    z.dump = [y](int in, ParsingOptions o) { return capture([&](FILE* f) { y->fdump(f, in, o); }); };
    xs.push_back(z);
  }
  std::string was = dump_state(st);
  auto refs = clone_refs(st);
  for (auto& x : xs) {
    c.count("dumps checked: " + x.what);
    check_dump(c, x);
  }
  if (dump_state(st) != was || refs->vps != st.vps || refs->sps != st.sps || refs->pps != st.pps) c.violation("dumping changed the state", describe(us));
  c.sample(describe(us));
}
}  // namespace vh
