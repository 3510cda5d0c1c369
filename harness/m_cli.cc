// O03, O04: the command-line tool, run as a separate process.
#include <iostream>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>

#include "build.h"

extern char** environ;

namespace vh {

static void tune(Ctx& c, Opts& o) {
  o.wild = c.r.chance(0.5) ? 0.05 : 0.3;
  o.max_vps_id = (int)c.r.below(3);
  o.max_sps_id = (int)c.r.below(3);
  o.max_pps_id = (int)c.r.below(3);
  o.pin["scaling_list_enabled_flag"] = c.r.chance(0.1);
  o.pin["pps_scaling_list_data_present_flag"] = c.r.chance(0.1);
  o.budget = 20000;
}

// A scratch directory of this case's own.
struct Dir {
  std::string p;
  std::vector<std::string> used;
  explicit Dir(Ctx& c) : p(c.outdir + fmt("/cli%d", c.shard)) { mkdir(p.c_str(), 0700); }
  std::string file(const char* n) {
    std::string s = p + "/" + n;
    if (std::find(used.begin(), used.end(), s) == used.end()) used.push_back(s);
    return s;
  }
  std::string put(const char* n, const Bytes& b) {
    std::string s = file(n);
    FILE* f = fopen(s.c_str(), "wb");
    if (!b.empty()) fwrite(b.data(), 1, b.size(), f);
    fclose(f);
    return s;
  }
  ~Dir() { for (auto& s : used) unlink(s.c_str()); rmdir(p.c_str()); }
};
static std::string slurp(const std::string& p) {
  std::string s;
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}

struct Run { int status = 0; bool signalled = false; std::string out; std::string err; };

// Runs the tool; standard input from |in| (a file, or a pipe filled with its contents), output to files.
static Run run(Ctx& c, Dir& d, std::vector<std::string> args, const Bytes* in = nullptr, bool pipe_in = false) {
  const char* exe = getenv("VH_CLI");
  if (!exe) { fprintf(stdout, "VH_CLI not set\n"); exit(97); }
  Run r;
  std::string so = d.file("stdout"), se = d.file("stderr"), si = "/dev/null";
  int fds[2] = {-1, -1};
  if (in && pipe_in && in->size() < 60000) {
    if (pipe2(fds, O_CLOEXEC) != 0) abort();
    size_t k = 0;
    while (k < in->size()) {
      ssize_t w = write(fds[1], in->data() + k, in->size() - k);
      if (w <= 0) abort();
      k += (size_t)w;
    }
    close(fds[1]);
  } else if (in) {
    si = d.put("stdin", *in);
  }
  std::string cmd;
  std::vector<char*> av = {const_cast<char*>("h265nal")};
  for (auto& a : args) { av.push_back(const_cast<char*>(a.c_str())); cmd += " " + a; }
  av.push_back(nullptr);
  c.count("runs of the tool");
  c.note("command" + cmd + " ; " + c.last_note.substr(0, c.last_note.find(" ; ") == std::string::npos ? 0 : c.last_note.size()));
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  if (fds[0] >= 0) posix_spawn_file_actions_adddup2(&fa, fds[0], 0);
  else posix_spawn_file_actions_addopen(&fa, 0, si.c_str(), O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 1, so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  posix_spawn_file_actions_addopen(&fa, 2, se.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  pid_t pid = 0;
  int e = posix_spawn(&pid, exe, &fa, nullptr, av.data(), environ);
  posix_spawn_file_actions_destroy(&fa);
  if (fds[0] >= 0) close(fds[0]);
  if (e != 0) { fprintf(stdout, "cannot start the tool: %s\n", strerror(e)); exit(97); }
  struct rlimit rl = {60, 60};   // seconds of processor time
  prlimit(pid, RLIMIT_CPU, &rl, nullptr);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  r.signalled = WIFSIGNALED(st);
  r.status = r.signalled ? WTERMSIG(st) : WEXITSTATUS(st);
  r.out = slurp(so);
  r.err = slurp(se);
  return r;
}
static bool crashed(const Run& r) {
  return r.signalled || r.status == 77 || r.status == 78 || r.err.find("AddressSanitizer") != std::string::npos ||
         r.err.find("runtime error") != std::string::npos || r.err.find("terminate called") != std::string::npos;
}
static std::string why(const Run& r) {
  size_t i = r.err.find("ERROR: AddressSanitizer");
  if (i == std::string::npos) i = r.err.find("runtime error");
  return fmt("%s %d: ", r.signalled ? "signal" : "status", r.status) + r.err.substr(i == std::string::npos ? 0 : i, 1500);
}
// runs of spaces and line-end spaces do not matter
static std::string norm(const std::string& s) {
  std::string o;
  for (char ch : s) {
    if (ch == ' ' && (o.empty() || o.back() == ' ' || o.back() == '\n')) continue;
    if (ch == '\n' && !o.empty() && o.back() == ' ') o.pop_back();
    o += ch;
  }
  return o;
}
static std::string differ(const std::string& want, const std::string& got) {
  std::string a = norm(want), b = norm(got);
  if (a == b) return "";
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t f = i > 60 ? i - 60 : 0;
  return fmt("at %zu: expected \"%s\", tool printed \"%s\"", i, a.substr(f, 160).c_str(), b.substr(f, 160).c_str());
}

struct Input {
  Bytes data;
  int width = -1;
  bool valid = false;
  std::vector<Unit> us;       // when valid
  Bytes hvcc;
  bool has_hvcc = false;
};

// A file in some framing, perhaps with a configuration record carrying the parameter sets.
static Input make_input(Ctx& c) {
  Input in;
  Gen g(c.r);
  tune(c, g.o);
  if (c.r.chance(0.35)) {
    in.has_hvcc = true;
    std::vector<std::vector<Unit>> arrays((size_t)c.r.below(4));
    for (auto& a : arrays)
      for (uint64_t k = c.r.below(3); k; k--) {
        Unit u = g.make(c.r.chance(0.85) ? (Kind)c.r.below(3) : K_SEI);
        if (u.nal.size() < 65536) a.push_back(u);
      }
    IO io(c.r);
    Box b;
    syn_hvcc(io, b, arrays);
    in.hvcc = io.w.b;
  }
  double p = c.r.next() % 100 / 100.0;
  in.us = g.stream(1 + (size_t)c.r.below(c.r.chance(0.1) ? 40 : 14), c.r.chance(0.5) ? 0.15 : 0);
  static const int widths[] = {1, 2, 3, 4, 5, 8};
  in.width = c.r.chance(0.5) ? -1 : c.r.chance(0.1) ? 0 : widths[c.r.below(6)];
  if (in.width == 0) in.us.resize(1);
  if ((in.width < 0 || in.width >= 3) && c.r.chance(0.06)) {   // a large file, of a size near a power of two
    size_t sum = 0;
    for (auto& u : in.us) sum += u.nal.size() + 4;
    static const size_t near[] = {4096, 8192, 16384, 32768, 65536, 131072, 262144};
    size_t aim = near[c.r.below(7)];
    if (aim > sum + 100) {
      Unit u;
      u.nut = 38;
      u.kind = K_OTHER;
      Bytes b = c.r.bytes(aim - sum - 8 + (size_t)c.r.below(16));
      for (auto& x : b) x |= 1;   // nothing to escape
      finish(u, b);
      in.us.push_back(u);
      c.count("large files");
    }
  }
  if (in.width == 1 || in.width == 2) {
    size_t mx = in.width == 1 ? 255 : 65535;
    std::vector<Unit> keep;
    for (auto& u : in.us) if (u.nal.size() <= mx) keep.push_back(u);
    if (keep.size() != in.us.size()) in.width = 4;   // dropping units would change what later ones mean
  }
  in.valid = p < 0.75;
  if (in.width < 0) in.data = annexb(c.r, in.us);
  else if (in.width == 0) in.data = in.us[0].nal;
  else in.data = prefixed(in.us, (size_t)in.width);
  if (!in.valid) {
    in.us.clear();
    if (c.r.chance(0.1)) in.data = c.r.bytes(1 + (size_t)c.r.below(300));
    else mutate(c.r, in.data);
    if (in.has_hvcc && c.r.chance(0.3)) mutate(c.r, in.hvcc);
    if (c.r.chance(0.2)) in.width = c.r.chance(0.5) ? -1 : (int)c.r.below(9);
  }
  return in;
}

struct Parsed {
  bool box_ok = true;
  std::shared_ptr<Box> box;
  std::unique_ptr<Stream> s;
};
static Parsed parse(const Input& in, const ParsingOptions& po, bool with_stream = true) {
  Parsed r;
  PState st;
  if (in.has_hvcc) {
    Exact e(in.hvcc);
    r.box = H265ConfigurationBoxParser::ParseConfigurationBox(e.p, e.n, &st, po);
    r.box_ok = r.box != nullptr;
    if (!r.box_ok) return r;
  }
  if (!with_stream) return r;
  Exact e(in.data);
  if (in.width < 0) r.s = H265BitstreamParser::ParseBitstream(e.p, e.n, &st, po);
  else r.s = H265BitstreamParser::ParseBitstreamNALULength(e.p, e.n, (size_t)in.width, &st, po);
  return r;
}

// Random spelling of the options; |sw| returns the switch states in force.
struct Switches { bool one_line = true, off = false, len = false, plen = false, sum = false, res = false, contents = false, length_report = false; };
static std::vector<std::string> spell(Ctx& c, Switches* sw, bool report) {
  std::vector<std::string> a;
  struct { const char* n; bool* f; } fl[] = {{"as-one-line", &sw->one_line}, {"add-offset", &sw->off}, {"add-length", &sw->len},
                                             {"add-parsed-length", &sw->plen}, {"add-checksum", &sw->sum}, {"add-resolution", &sw->res},
                                             {"add-contents", &sw->contents}};
  for (uint64_t k = c.r.below(8); k; k--) {
    auto& f = fl[c.r.below(7)];
    bool on = c.r.chance(f.f == &sw->one_line ? 0.4 : 0.75);
    *f.f = on;
    a.push_back(std::string(on ? "--" : "--no-") + f.n);
  }
  if (c.r.chance(0.1)) {   // being told more is asked for, and taken back
    for (uint64_t k = 1 + c.r.below(3); k; k--) a.push_back(c.r.chance(0.5) ? "-d" : "--debug");
    a.push_back(c.r.chance(0.5) ? "-q" : "--quiet");
    if (c.r.chance(0.3)) a.push_back("-d");
    c.count("runs with the debug switch");
  }
  if (c.r.chance(0.1)) a.push_back("-q");
  if (c.r.chance(0.1)) a.push_back("--quiet");
  if (report) {
    if (c.r.chance(0.2)) a.push_back("--dump-all");
    a.push_back("--dump-length");
    sw->length_report = true;
  } else {
    if (c.r.chance(0.1)) a.push_back("--dump-length");
    if (!a.empty() && a.back() == "--dump-length") a.push_back("--dump-all");
    else if (c.r.chance(0.2)) a.push_back("--dump-all");
  }
  return a;
}
static ParsingOptions effective(const Switches& sw) {
  ParsingOptions po = opts_from(0);
  po.add_offset = sw.off || sw.contents;
  po.add_length = sw.len || sw.contents || sw.length_report;
  po.add_parsed_length = sw.plen;
  po.add_checksum = sw.sum;
  po.add_resolution = sw.res;
  return po;
}
static void add_width(Ctx& c, std::vector<std::string>* a, int width) {
  if (width < 0 && c.r.chance(0.7)) return;
  if (c.r.chance(0.5)) { a->push_back("--nalu-length-bytes"); a->push_back(std::to_string(width)); }
  else a->push_back("--nalu-length-bytes=" + std::to_string(width));
}
static void shuffle_in(Ctx& c, std::vector<std::string>* a, const std::vector<std::string>& more) {
  // |more| keeps together; it goes first or last
  if (c.r.chance(0.5)) a->insert(a->end(), more.begin(), more.end());
  else a->insert(a->begin(), more.begin(), more.end());
}

static void refused(Ctx& c, Dir& d, const std::vector<std::string>& args, const std::string& what, const Bytes* in = nullptr) {
  Run r = run(c, d, args, in);
  c.count("bad invocations, " + what);
  if (crashed(r)) { c.violation("crash: " + what, why(r)); return; }
  if (r.status == 0) c.violation("no error for " + what, r.out.substr(0, 300));
}

VH_MODE(O03, 5000, 300000, "one run of the tool; distinct by its input bytes and switches") {
  Dir d(c);
  if (c.cur % 8 == 5) {   // things the tool must refuse
    Input in = make_input(c);
    c.note("bad invocation ; " + hex(in.data, 3000));
    c.eval(hash_bytes(in.data));
    std::string f = d.put("in.265", in.data.empty() ? Bytes(1) : in.data);
    switch (c.r.below(10)) {
      case 0: refused(c, d, {}, "no input named"); break;
      case 1: refused(c, d, {"-i", d.p + "/missing"}, "missing input file"); break;
      case 2: refused(c, d, {"-i", d.p}, "a directory as input file"); break;
      case 3: refused(c, d, {"-i", d.put("empty", Bytes())}, "empty input file"); break;
      case 4: refused(c, d, {"-i", f, "-o", d.p + "/no/such/dir"}, "output file that cannot be opened"); break;
      case 5: {
        static const char* const bad[] = {"x", "1x", "-2", "2147483648", "99999999999999999999", "-99999999999999999999", "4 ", "0x4", "1.5"};
        std::string b = bad[c.r.below(9)];
        refused(c, d, {"-i", f, "--nalu-length-bytes", b}, "bad unit length width " + b);
        break;
      }
      case 6: {
        static const char* const bad[] = {"x", "30x", "-1", "2147483648", "99999999999999999999", "29.97", "30/1"};
        std::string b = bad[c.r.below(7)];
        refused(c, d, {"-i", f, "--dump-length", "--frames-per-second", b}, "bad frame rate " + b);
        break;
      }
      case 7: {
        static const char* const bad[] = {"--nonsense", "-z", "--infile", "--add-", "-o", "--hvcc-file"};
        std::string b = bad[c.r.below(6)];
        refused(c, d, {"-i", f, b}, "unknown or incomplete option " + b);
        break;
      }
      case 8: {
        Bytes h = in.hvcc.empty() ? c.r.bytes((size_t)c.r.below(30)) : in.hvcc;
        if (!h.empty()) h[0] = (uint8_t)(2 + c.r.below(250));
        std::string hf = d.put("bad.hvcc", h);
        if (c.r.chance(0.5)) refused(c, d, {"--hvcc-file", hf, "-i", f}, "bad configuration record");
        else refused(c, d, {"--hvcc-file", hf}, "bad configuration record");
        break;
      }
      case 9: refused(c, d, {"--hvcc-file", d.p + "/missing", "-i", f}, "missing configuration record"); break;
    }
    return;
  }
  if (c.r.chance(0.01)) {
    Run r = run(c, d, {"--version"});
    if (crashed(r) || r.status != 0 || r.out.find("version: ") != 0) c.violation("version", why(r) + r.out);
    r = run(c, d, {c.r.chance(0.5) ? "-h" : "--help"});
    if (crashed(r) || r.err.find("--nalu-length-bytes") == std::string::npos) c.violation("help", why(r));
  }
  Input in = make_input(c);
  if (in.data.empty()) return;
  Switches sw;
  std::vector<std::string> args = spell(c, &sw, false);
  bool with_stream = !(in.has_hvcc && c.r.chance(0.1));
  if (with_stream) add_width(c, &args, in.width);
  if (c.r.chance(0.1)) { args.push_back("--frames-per-second"); args.push_back(std::to_string(c.r.below(100))); }
  c.note("run ; " + fmt("width %d valid %d options %s input ", in.width, (int)in.valid, [&] { std::string s; for (auto& a : args) s += a + " "; return s; }().c_str()) +
         hex(in.data, 8000) + (in.has_hvcc ? " hvcC " + hex(in.hvcc, 8000) : ""));
  c.eval(hash_bytes(in.data, hash_str(in.has_hvcc ? "h" : "") + in.hvcc.size()));
  // what the library says
  ParsingOptions po = effective(sw);
  Parsed p = parse(in, po, with_stream);
  int indent = sw.one_line ? -1 : 0;
  std::string want;
  if (p.box_ok) {
    if (p.box) want += capture([&](FILE* f) { p.box->fdump(f, indent, po); }) + "\n";
    if (p.s) {
      if (in.valid && p.s->nal_units.size() != in.us.size()) { c.count("streams not split as expected"); return; }   // F's concern
      size_t k = 0;
      for (auto& n : p.s->nal_units) {
        want += capture([&](FILE* f) { n->fdump(f, indent, po); });
        if (sw.contents) {
          want += " contents {";
          if (in.valid) {
            for (uint8_t x : in.us[k].nal) want += fmt(" %02x", x);
          } else {
            for (size_t i = 0; i < n->length && n->offset + i < in.data.size(); i++) want += fmt(" %02x", in.data[n->offset + i]);
          }
          want += " }";
        }
        want += "\n";
        k++;
      }
      c.count("units", p.s->nal_units.size());
    }
  }
  std::string hf;
  std::vector<std::string> names;
  if (in.has_hvcc) {
    hf = d.put("in.hvcc", in.hvcc);
    names.push_back("--hvcc-file");
    names.push_back(hf);
  }
  bool by_stdin = with_stream && c.r.chance(0.25);
  std::string f = d.put("in.265", in.data);
  if (with_stream) {
    names.push_back(c.r.chance(0.5) ? "-i" : "--infile");
    names.push_back(by_stdin ? "-" : f);
  }
  std::vector<std::string> a1 = args;
  shuffle_in(c, &a1, names);
  bool to_file = c.r.chance(0.3);
  std::string of = d.file("out.txt");
  if (to_file) {
    d.put("out.txt", c.r.bytes((size_t)c.r.below(2000)));   // must be replaced
    a1.push_back(c.r.chance(0.5) ? "-o" : "--outfile");
    a1.push_back(of);
  } else if (c.r.chance(0.1)) {
    a1.push_back("-o");
    a1.push_back("-");
  }
  Run r = run(c, d, a1, by_stdin ? &in.data : nullptr, c.r.chance(0.5));
  c.count(by_stdin ? "input by standard input" : "input by name");
  c.count(to_file ? "output to a file" : "output to standard output");
  c.count(in.valid ? "streams of known content" : "hostile files");
  if (in.has_hvcc) c.count("runs with a configuration record");
  if (sw.contents) c.count("runs with contents");
  if (crashed(r)) { c.violation("crash", why(r)); return; }
  if (!p.box_ok) {
    c.count("configuration records refused");
    if (r.status == 0) c.violation("no error for a bad configuration record", r.out.substr(0, 300));
    return;
  }
  if (r.status != 0) { c.violation("error exit for a readable file", why(r)); return; }
  if (to_file && !r.out.empty()) c.violation("standard output used although a file was named", r.out.substr(0, 300));
  std::string got = to_file ? slurp(of) : r.out;
  std::string df = differ(want, got);
  c.count("bytes of output compared", got.size());
  if (!df.empty()) { c.violation(p.box && !p.s ? "record dump differs" : "dump differs", df); return; }
  // the configuration record must be read before the stream wherever it is named; here: repeat gives the same
  if (c.r.chance(0.1)) {
    Run q = run(c, d, a1, by_stdin ? &in.data : nullptr, true);
    std::string g2 = to_file ? slurp(of) : q.out;
    if (crashed(q) || q.status != 0 || g2 != got) c.violation("second run differs", why(q));
  }
}

// ---------------------------------------------------------------- length report
static const char* type_name(uint32_t t) {
  static const char* const n[64] = {
      "trail_n", "trail_r", "tsa_n", "tsa_r", "stsa_n", "stsa_r", "radl_n", "radl_r", "rasl_n", "rasl_r",
      "rsv_vcl_n10", "rsv_vcl_r11", "rsv_vcl_n12", "rsv_vcl_r13", "rsv_vcl_n14", "rsv_vcl_r15",
      "bla_w_lp", "bla_w_radl", "bla_n_lp", "idr_w_radl", "idr_n_lp", "cra_nut", "rsv_irap_vcl22", "rsv_irap_vcl23",
      "rsv_vcl24", "rsv_vcl25", "rsv_vcl26", "rsv_vcl27", "rsv_vcl28", "rsv_vcl29", "rsv_vcl30", "rsv_vcl31",
      "vps_nut", "sps_nut", "pps_nut", "aud_nut", "eos_nut", "eob_nut", "fd_nut", "prefix_sei_nut", "suffix_sei_nut",
      "rsv_nvcl41", "rsv_nvcl42", "rsv_nvcl43", "rsv_nvcl44", "rsv_nvcl45", "rsv_nvcl46", "rsv_nvcl47",
      "ap", "fu", "unspec50", "unspec51", "unspec52", "unspec53", "unspec54", "unspec55", "unspec56", "unspec57",
      "unspec58", "unspec59", "unspec60", "unspec61", "unspec62", "unspec63"};
  return t < 64 ? n[t] : "";
}
// the names differ only in how they are abbreviated
static std::string canon(std::string s) {
  for (auto& ch : s) ch = (char)tolower((unsigned char)ch);
  if (s.size() > 4 && s.compare(s.size() - 4, 4, "_nut") == 0) s.resize(s.size() - 4);
  return s;
}
static std::vector<std::string> fields(const std::string& l) {
  std::vector<std::string> v(1);
  for (char ch : l) if (ch == ',') v.emplace_back(); else v.back() += ch;
  return v;
}
struct Rec { uint32_t type; size_t len; bool slice, decoded; uint64_t first, addr, poc; };
static bool slice_type(uint32_t t) { return t <= 9 || (t >= 16 && t <= 21); }

VH_MODE(O04, 6000, 400000, "one length report; distinct by its input bytes") {
  Dir d(c);
  Input in;
  {
    // mostly slices
    Gen g(c.r);
    tune(c, g.o);
    if (c.r.chance(0.5)) g.o.pin["slice_segment_header_extension_present_flag"] = 0;
    std::vector<Unit> us;
    if (c.r.chance(0.9)) { us.push_back(g.make(K_VPS)); us.push_back(g.make(K_SPS)); us.push_back(g.make(K_PPS)); }
    int style = (int)c.r.below(4);
    for (uint64_t k = 1 + c.r.below(c.r.chance(0.1) ? 60 : 20); k; k--) {
      if (style != 3) g.o.pin["first_slice_segment_in_pic_flag"] = style == 0 ? c.r.chance(0.8) : style == 1 ? c.r.chance(0.3) : c.r.chance(0.5);
      double x = (double)(c.r.next() % 1000) / 1000;
      if (x < 0.7) us.push_back(g.make(K_SLICE));
      else if (x < 0.78) us.push_back(g.make_broken(K_SLICE));
      else if (x < 0.9) us.push_back(g.make_other());
      else us.push_back(g.make((Kind)c.r.below(7)));
    }
    if (c.r.chance(0.03)) {
      size_t big = c.r.chance(0.1) ? 700000 : 70000;
      c.count("reports with pictures of tens of kilobytes and more");
      for (int left = 1 + (int)c.r.below(3), tries = 0; left && tries < 20; tries++) {
        Unit& u = us[(size_t)c.r.below(us.size())];
        if (u.kind == K_SLICE && !u.broken) { inflate(c.r, u, big / 4 + (size_t)c.r.below(big)); left--; }
      }
    }
    in.us = us;
    in.valid = c.r.chance(0.8);
    in.width = c.r.chance(0.6) ? -1 : 4;
    in.data = in.width < 0 ? annexb(c.r, us) : prefixed(us, 4);
    if (!in.valid) { in.us.clear(); mutate(c.r, in.data); }
  }
  if (in.data.empty()) return;
  Switches sw;
  std::vector<std::string> args = spell(c, &sw, true);
  add_width(c, &args, in.width);
  uint64_t fps = 30;
  if (c.r.chance(0.6)) {
    fps = c.r.chance(0.1) ? 2147483647 : c.r.chance(0.1) ? 0 : c.r.logbelow(1000);
    args.push_back("--frames-per-second");
    args.push_back(std::to_string(fps));
  }
  c.note("run ; " + fmt("width %d valid %d fps %llu input ", in.width, (int)in.valid, (unsigned long long)fps) + hex(in.data, 8000));
  c.eval(hash_bytes(in.data));
  std::vector<Rec> recs;
  if (in.valid) {
    for (auto& u : in.us) {
      Rec q{u.nut, u.nal.size(), slice_type(u.nut), false, 0, 0, 0};
      if (q.slice && u.slice && !u.broken) {
        q.decoded = true;
        q.first = u.slice->first_slice_segment_in_pic_flag;
        q.addr = u.slice->slice_segment_address;
        q.poc = u.slice->slice_pic_order_cnt_lsb;
      }
      recs.push_back(q);
    }
  } else {
    Parsed p = parse(in, opts_all());
    for (auto& n : p.s->nal_units) {
      Rec q{n->nal_unit_header->nal_unit_type, n->length, slice_type(n->nal_unit_header->nal_unit_type), false, 0, 0, 0};
      if (q.slice && n->nal_unit_payload && n->nal_unit_payload->slice_segment_layer) {
        auto& h = *n->nal_unit_payload->slice_segment_layer->slice_segment_header;
        q.decoded = true;
        q.first = h.first_slice_segment_in_pic_flag;
        q.addr = h.slice_segment_address;
        q.poc = h.slice_pic_order_cnt_lsb;
      }
      recs.push_back(q);
    }
  }
  std::string f = d.put("in.265", in.data);
  args.push_back("-i");
  args.push_back(f);
  Run r = run(c, d, args);
  if (crashed(r)) { c.violation("crash", why(r)); return; }
  if (r.status != 0) { c.violation("error exit for a readable file", why(r)); return; }
  c.count(in.valid ? "streams of known content" : "hostile files");
  // read the report
  std::vector<std::string> lines;
  {
    std::string cur;
    for (char ch : r.out) if (ch == '\n') { lines.push_back(cur); cur.clear(); } else cur += ch;
    if (!cur.empty()) { c.violation("report does not end with a line break", cur.substr(0, 200)); return; }
  }
  if (lines.empty() || lines[0] != "nal_num,frame_num,nal_unit_type,nal_unit_type_str,nal_length_bytes,bitrate_bps,"
                                   "first_slice_segment_in_pic_flag,slice_segment_address,slice_pic_order_cnt_lsb") {
    c.violation("header line", lines.empty() ? "(none)" : lines[0]);
    return;
  }
  size_t li = 1, unit = 0;
  uint64_t frame = 0, bytes = 0, last_type = 0, total_rate = 0, slice_bytes = 0;
  auto frame_row = [&]() -> bool {
    if (li >= lines.size()) { c.violation("frame row missing", fmt("before unit %zu", unit)); return false; }
    auto v = fields(lines[li]);
    std::vector<std::string> want = {"", std::to_string(frame), std::to_string(last_type), "frame", "", std::to_string(bytes * 8 * fps), "", "", ""};
    if (v != want) {
      std::string w;
      for (auto& x : want) w += x + ",";
      c.violation(v.size() > 3 && v[3] == "frame" ? "frame row" : "frame row missing", fmt("before unit %zu: \"%s\", expected \"%s\"", unit, lines[li].c_str(), w.c_str()));
      return false;
    }
    total_rate += bytes * 8 * fps;
    c.count("frame rows checked");
    frame++;
    bytes = 0;
    li++;
    return true;
  };
  for (; unit < recs.size(); unit++) {
    auto& q = recs[unit];
    if (q.slice) {
      if (q.decoded && q.first == 1 && bytes > 0 && !frame_row()) return;
      bytes += q.len;
      slice_bytes += q.len;
      last_type = q.type;
    }
    if (li >= lines.size()) { c.violation("unit missing", fmt("unit %zu of %zu", unit, recs.size())); return; }
    auto v = fields(lines[li]);
    std::vector<std::string> want = {std::to_string(unit), std::to_string(frame), std::to_string(q.type), canon(type_name(q.type)), std::to_string(q.len), "",
                                     q.decoded ? std::to_string(q.first) : "", q.decoded ? std::to_string(q.addr) : "", q.decoded ? std::to_string(q.poc) : ""};
    if (v.size() > 3) v[3] = canon(v[3]);
    static const char* const col[] = {"unit number", "frame number", "type", "type name", "length", "bit rate", "first slice flag", "slice address", "picture order count"};
    if (v.size() != 9) { c.violation("columns", lines[li]); return; }
    for (size_t k = 0; k < 9; k++)
      if (v[k] != want[k]) {
        bool fr = v[3] == "frame";
        c.violation(fr ? std::string("unexpected frame row") : std::string("unit row: ") + col[k],
                    fmt("unit %zu: \"%s\", expected %s to be \"%s\"", unit, lines[li].c_str(), col[k], want[k].c_str()));
        return;
      }
    c.count(q.decoded ? "decoded slice rows checked" : q.slice ? "undecoded slice rows checked" : "other rows checked");
    li++;
  }
  if (bytes > 0 && !frame_row()) return;
  if (li != lines.size()) { c.violation("rows after the end", lines[li]); return; }
  if (total_rate != slice_bytes * 8 * fps) c.violation("frame rows do not account for all slice bytes", fmt("%llu", (unsigned long long)total_rate));
  c.maximum("frames in one report", frame);
}

// Whether more descriptors are in use than the least ever seen.  The sanitizer's own thread opens a file for a moment
// now and then, so only what stays counts.
static bool left_open() {
  static int least = 1 << 20, reported = 0;
  if (reported >= 3) return false;
  int f = 0;
  for (int k = 0; k < 20; k++) {
    f = dup(2);
    if (f >= 0) close(f);
    if (f >= 0 && f <= least) break;
    if (least == 1 << 20) break;
    usleep(20000);
  }
  bool more = f < 0 || f > least;
  if (least == 1 << 20 || (f >= 0 && f < least)) { least = f; return false; }
  if (more) { least = f; reported++; }
  return more;
}
// Swaps standard input for a file or a pipe while it lives.
struct Stdin {
  int old;
  explicit Stdin(int fd) : old(fcntl(0, F_DUPFD_CLOEXEC, 100)) { dup2(fd, 0); std::cin.clear(); clearerr(stdin); }
  ~Stdin() { dup2(old, 0); close(old); }
};

VH_MODE(O05, 20000, 1200000, "one file or standard input read; distinct by its contents and what held the buffer before") {
  Dir d(c);
  left_open();
  static const size_t near[] = {512, 1024, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 1048576};
  size_t n = c.r.chance(0.5) ? (size_t)c.r.logbelow(20000) : c.r.chance(0.15) ? near[4 + c.r.below(6)] - 3 + (size_t)c.r.below(7) : near[c.r.below(5)] - 3 + (size_t)c.r.below(7);
  if (c.r.chance(0.02)) n = 0;
  if (c.cur % 5000 == 9) n = ((size_t)1 << (c.cur % 10000 == 9 ? 24 : 27)) + (size_t)c.r.below(100);
  bool huge = c.cur % 5000 == 9;
  Bytes b = c.r.bytes(huge ? 100003 : n);
  int style = huge ? 4 : (int)c.r.below(5);
  for (size_t m = b.size(); huge && b.size() < n;) b.push_back((uint8_t)(b[b.size() - m] + 1));
  static const uint8_t text[] = {'\n', '\r', 0x1a, 0x04, 0, 0xff, ' ', '\t', 0x0b};
  // bytes that text-mode or token-wise reading would change
  if (style < 2) for (auto& x : b) if (c.r.chance(style ? 0.9 : 0.2)) x = text[c.r.below(9)];
  if (style == 2 && n) b[n - 1] = text[c.r.below(9)];
  if (style == 3 && n) b[0] = text[c.r.below(9)];
  // the buffer may be new, or hold something longer or shorter already
  Bytes before;
  if (c.r.chance(0.4)) before = c.r.bytes((size_t)c.r.logbelow(c.r.chance(0.5) ? 30000 : 2 * n + 10));
  uint64_t how = huge ? (c.cur / 10000 % 2 ? 7 : 15) : c.r.below(20);
  c.note(fmt("source %d, %zu bytes, buffer of %zu ", (int)how, n, before.size()) + hex(b, 3000));
  c.eval(mix(hash_bytes(b), mix(how, before.size())));
  c.count("bytes read back", n);
  auto errors = [&](const char* what, const char* name) {
    Bytes out = before;
    int e = H265Utils::ReadFile(name, out);
    c.count(std::string("refused: ") + what);
    if (e >= 0) c.violation(std::string("no error for ") + what, fmt("returned %d and %zu bytes", e, out.size()));
  };
  auto equals = [&](const char* what, const char* name) {
    Bytes out = before;
    int e = H265Utils::ReadFile(name, out);
    c.count(what);
    if (e != 0) c.violation(std::string("refused: ") + what, fmt("returned %d for %zu bytes", e, n));
    else if (out != b) {
      size_t i = 0;
      while (i < out.size() && i < b.size() && out[i] == b[i]) i++;
      c.violation(std::string("contents: ") + what, fmt("%zu bytes instead of %zu, first difference at %zu", out.size(), n, i));
    }
  };
  std::string f = d.put("in.265", b);
  if (how == 0) errors("missing file", (d.p + "/missing").c_str());
  else if (how == 1) errors("directory", d.p.c_str());
  else if (how == 2) errors("empty file", d.put("empty", Bytes()).c_str());
  else if (how == 3) errors("name of a file followed by a slash", (f + "/").c_str());
  else if (how == 4) errors("empty name", "");
  else if (how == 5) errors("device without contents", "/dev/null");
  else if (how < 9) {   // standard input: appended to an empty buffer
    before.clear();
    bool pipe = how == 6 && n < 60000;
    const char* name = c.r.chance(0.3) ? nullptr : "-";
    if (pipe) {
      int p[2];
      if (pipe2(p, O_CLOEXEC) != 0) abort();
      size_t k = 0;
      while (k < n) { ssize_t w = write(p[1], b.data() + k, n - k); if (w <= 0) abort(); k += (size_t)w; }
      close(p[1]);
      { Stdin s(p[0]); equals("standard input from a pipe", name); }
      close(p[0]);
    } else {
      int h = open(f.c_str(), O_RDONLY | O_CLOEXEC);
      { Stdin s(h); equals("standard input from a file", name); }
      close(h);
    }
  } else if (n == 0) errors("empty file", f.c_str());
  else {
    std::string name = f;
    if (how == 9) {   // names that begin like the one for standard input, or are unusual
      static const char* const odd[] = {"-x", "--", "a b", "-.265", "%s%n", "\xc3\xa9", "x\ny"};
      name = d.put(odd[c.r.below(7)], b);
      if (c.r.chance(0.7)) {   // relative
        char cwd[4096];
        if (!getcwd(cwd, sizeof cwd) || chdir(d.p.c_str()) != 0) abort();
        equals("file with an unusual name", name.substr(d.p.size() + 1).c_str());
        if (chdir(cwd) != 0) abort();
        if (left_open()) c.violation("file left open", "unusual name");
        return;
      }
    }
    equals("file", name.c_str());
    if (slurp(f) != std::string(b.begin(), b.end())) c.violation("the file was changed", f);
  }
  if (left_open()) c.violation("file left open", fmt("source %d", (int)how));
  c.sample(fmt("source %d: %zu bytes, buffer of %zu", (int)how, n, before.size()));
}
}  // namespace vh
