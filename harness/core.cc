#include "core.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <time.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdlib>

namespace vh {

uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull + (a << 6) + (a >> 2));
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
  const uint8_t* q = (const uint8_t*)p;
  for (size_t i = 0; i < n; i++) h = (h ^ q[i]) * 1099511628211ull;
  return h ^ (h >> 29);
}
std::string hex(const Bytes& b, size_t max) {
  static const char* d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < b.size() && i < max; i++) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
  if (b.size() > max) s += fmt("...(%zu bytes)", b.size());
  return s;
}
Bytes unhex(const std::string& s) {
  Bytes b;
  for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t)strtoul(s.substr(i, 2).c_str(), nullptr, 16));
  return b;
}
std::string fmt(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  char buf[4096];
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

Bytes escape(const Bytes& x) {
  Bytes o;
  int z = 0;
  for (uint8_t c : x) {
    if (z == 2 && c <= 3) { o.push_back(3); z = 0; }
    o.push_back(c);
    z = c == 0 ? z + 1 : 0;
  }
  // 7.4.1.1: a payload ending in 00 is followed by a 03
  if (z > 0 && !o.empty() && o.back() == 0) o.push_back(3);
  return o;
}
Bytes ref_unescape(const Bytes& x) {
  Bytes o;
  int z = 0;
  for (uint8_t c : x) {
    if (z >= 2 && c == 3) { z = 0; continue; }
    o.push_back(c);
    z = c == 0 ? z + 1 : 0;
  }
  return o;
}

int64_t IO::choose(const char* n, int64_t lo, int64_t hi, int64_t soft, int64_t codemax, char kind) {
  long idx = (long)tr.size();
  if (idx == force_idx) return force_val;
  auto it = pin.find(n);
  if (it != pin.end()) return it->second;
  if (hostile > 0 && r->chance(hostile)) {
    int64_t cmin = kind == 's' ? -codemax : 0;
    switch (r->below(6)) {
      case 0: return codemax;
      case 1: return cmin;
      case 2: return std::min(hi + 1 + (int64_t)r->logbelow(16), codemax);
      case 3: return std::max(lo - 1, cmin);
      case 4: { int64_t v = (int64_t)r->logbelow((uint64_t)codemax) + 1; return kind == 's' && r->chance(0.5) ? -v : v; }
      default: return kind == 'e' && r->chance(0.5) ? 0x7FFFFFFF + (int64_t)r->below(3) : r->range(cmin, codemax);
    }
  }
  if (hi <= lo) return lo;
  if (r->chance(wild)) {
    switch (r->below(3)) {
      case 0: return lo;
      case 1: return hi;
      default: return r->range(lo, hi);
    }
  }
  if (soft != INT64_MIN) {
    int64_t s = std::min(soft, hi);
    int64_t l = lo;
    if (kind == 's' && -soft > lo) l = -soft;
    return r->range(l, std::max(l, s));
  }
  uint64_t span = (uint64_t)(hi - lo);
  if (span > 300 && kind != 'u') {
    if (lo < 0) { int64_t v = (int64_t)r->logbelow((uint64_t)std::max(hi, -lo) + 1); if (r->chance(0.5)) v = -v; return std::min(hi, std::max(lo, v)); }
    return lo + (int64_t)r->logbelow(span + 1);
  }
  return r->range(lo, hi);
}
int64_t IO::choose_flag(const char* n, double p) {
  long idx = (long)tr.size();
  if (idx == force_idx) return force_val;
  auto it = pin.find(n);
  if (it != pin.end()) return it->second;
  return r->chance(p) ? 1 : 0;
}
void IO::code(const char* n, char kind, int bits, int64_t v, int64_t lo, int64_t hi, long idx) {
  size_t pos = w.n;
  if (dec && kind != 'f' && (v < lo || v > hi)) {
    if (next_enforced) stop(D_ENFORCED, fmt("%s%s=%lld not in %lld..%lld", prefix.c_str(), n, (long long)v, (long long)lo, (long long)hi));
    if (v > 0xFFFFFFFEll && kind == 'e') stop(D_UNKNOWN, std::string(n) + ": more than 32 bits");
    std::string nm = n;
    if (kind == 'e' && v > 190 && (nm.find("num") != std::string::npos || nm.find("_length") != std::string::npos)) stop(D_UNKNOWN, nm + ": large count");
    soft(fmt("%s%s=%lld not in %lld..%lld", prefix.c_str(), n, (long long)v, (long long)lo, (long long)hi));
  }
  if (bits > 200 || bits < 0) { if (dec) stop(D_UNKNOWN, std::string(n) + ": width"); truncated = true; throw StopGen(); }
  switch (kind) {
    case 'e': w.ue((uint64_t)v); break;
    case 's': w.se(v); break;
    default: w.put((uint64_t)v, bits); break;
  }
  Elem e;
  e.name = n;
  e.path = prefix + n;
  if (idx >= 0) e.path += "[" + std::to_string(idx) + "]";
  e.val = v;
  e.pos = pos;
  e.nbits = (int)(w.n - pos);
  e.kind = kind;
  e.lo = lo;
  e.hi = hi;
  e.enforced = next_enforced;
  e.nodump = next_nodump;
  next_enforced = next_nodump = false;
  bool was_forced = (long)tr.size() == force_idx;
  tr.push_back(e);
  if (was_forced) {
    forced = true;
    if (force_stop) { truncated = true; throw StopGen(); }
  }
  if (w.n > budget || tr.size() > budget) { if (dec) stop(D_UNKNOWN, "size"); truncated = true; throw StopGen(); }
}
int64_t IO::decode(const char* n, char kind, int bits) {
  size_t total = dec->size() * 8;
  BitR b(*dec, w.n);
  if (kind == 'u') {
    if (bits < 0 || bits > 62) stop(D_UNKNOWN, std::string(n) + ": width");
    if (b.left() < (size_t)bits) stop(D_END, n);
    return (int64_t)b.get(bits);
  }
  int z = 0;
  for (;;) {
    if (b.p >= total) stop(D_END, n);
    if (b.bit()) break;
    if (++z > 32) stop(D_UNKNOWN, std::string(n) + ": code of more than 65 bits");
  }
  if (b.left() < (size_t)z) stop(D_END, n);
  uint64_t k = ((uint64_t)1 << z) - 1 + b.get(z);
  if (kind == 'e') return (int64_t)k;
  return k % 2 ? (int64_t)(k + 1) / 2 : -(int64_t)(k / 2);
}
bool IO::more() const {
  size_t last = dec->size() * 8;
  while (last > 0 && !(((*dec)[(last - 1) / 8] >> (7 - (last - 1) % 8)) & 1)) last--;
  return last > 0 && w.n < last - 1;
}
void IO::trailing() {
  if (!dec) { w.trailing(); return; }
  size_t total = dec->size() * 8;
  BitR b(*dec, w.n);
  if (total <= w.n || total - w.n > 8 || !b.bit()) { soft("trailing bits"); return; }
  while (b.left()) if (b.bit()) { soft("trailing bits"); return; }
}
void IO::flatten(const char* n, int64_t v, long idx) {
  next_enforced = next_nodump = false;
  if (idx >= 0) emit(std::string(n) + "[" + std::to_string(idx) + "]", v);
  else emit(n, v);
}

std::string strip_idx(const std::string& s) {
  std::string o;
  bool in = false;
  for (char c : s) {
    if (c == '[') { in = true; continue; }
    if (c == ']') { in = false; continue; }
    if (!in) o += c;
  }
  return o;
}
std::string diff(const IO::Flat& a, const IO::Flat& b, std::string* key) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; i++) {
    if (a[i].first != b[i].first) {
      if (key) *key = strip_idx(a[i].first) + " structure";
      return fmt("expected element %s=%lld, got element %s=%lld", a[i].first.c_str(), (long long)a[i].second,
                 b[i].first.c_str(), (long long)b[i].second);
    }
    if (a[i].second != b[i].second) {
      if (key) *key = strip_idx(a[i].first);
      return fmt("%s: expected %lld, got %lld", a[i].first.c_str(), (long long)a[i].second, (long long)b[i].second);
    }
  }
  if (a.size() != b.size()) {
    const auto& x = a.size() > n ? a[n] : b[n];
    if (key) *key = strip_idx(x.first) + " structure";
    return fmt("%s element %s=%lld", a.size() > n ? "missing" : "extra", x.first.c_str(), (long long)x.second);
  }
  return "";
}

std::vector<Mode>& modes() {
  static std::vector<Mode> m;
  return m;
}

// ---- the current case is kept in a shared mapping, so that it survives a crash of this process
static char* g_note = nullptr;
static const size_t kNoteMax = 1 << 20;
static Ctx* g_ctx = nullptr;

void Ctx::note(const std::string& what) {
  last_note = what;
  if (!g_note) return;
  size_t n = std::min(what.size(), kNoteMax - 64);
  char head[64];
  snprintf(head, sizeof head, "%llu %zu\n", (unsigned long long)cur, n);
  size_t h = strlen(head);
  memcpy(g_note, head, h);
  memcpy(g_note + h, what.data(), n);
  g_note[h + n] = 0;
}
void Ctx::digest(const std::string& text) {
  uint64_t h = hash_str(text);
  if (!digests.empty() && digests.back().first == cur) digests.back().second = mix(digests.back().second, h);
  else digests.push_back(std::make_pair(cur, h));
  if (const char* p = getenv("VH_TEXT")) {
    if (FILE* f = fopen(p, "a")) { fprintf(f, "%s\n-- end of result; %.4000s\n", text.c_str(), last_note.c_str()); fclose(f); }
  }
}
void Ctx::violation(const std::string& key, const std::string& detail) {
  auto it = viols.find(key);
  if (it != viols.end()) { it->second.times++; return; }
  if (viols.size() >= 200) return;
  viols[key] = Viol{key, detail, last_note, cur, 1};
}

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
    else if (ch < 0x20 || ch >= 0x7f) o += fmt("\\u%04x", ch);
    else o += (char)ch;
  }
  return o + "\"";
}
static void save(Ctx& c, bool complete, const std::string& path) {
  std::string tmp = path + ".tmp";
  FILE* f = fopen(tmp.c_str(), "w");
  if (!f) return;
  fprintf(f, "{\"complete\":%s,\"next\":%llu,\"evaluations\":%llu,\"counters\":{", complete ? "true" : "false",
          (unsigned long long)c.cur, (unsigned long long)c.evaluations);
  const char* sep = "";
  for (auto& k : c.counters) { fprintf(f, "%s%s:%llu", sep, jstr(k.first).c_str(), (unsigned long long)k.second); sep = ","; }
  fprintf(f, "},\"maxima\":{");
  sep = "";
  for (auto& k : c.maxima) { fprintf(f, "%s%s:%llu", sep, jstr(k.first).c_str(), (unsigned long long)k.second); sep = ","; }
  fprintf(f, "},\"samples\":[");
  sep = "";
  for (auto& s : c.samples) { fprintf(f, "%s%s", sep, jstr(s).c_str()); sep = ","; }
  fprintf(f, "],\"violations\":[");
  sep = "";
  for (auto& kv : c.viols) {
    auto& v = kv.second;
    fprintf(f, "%s{\"key\":%s,\"detail\":%s,\"input\":%s,\"case\":%llu,\"times\":%llu}", sep, jstr(v.key).c_str(),
            jstr(v.detail).c_str(), jstr(v.input).c_str(), (unsigned long long)v.c, (unsigned long long)v.times);
    sep = ",";
  }
  fprintf(f, "]}\n");
  fclose(f);
  rename(tmp.c_str(), path.c_str());
  std::string hp = path + ".hashes";
  f = fopen(hp.c_str(), "wb");
  if (f) {
    for (uint64_t h : c.distinct) fwrite(&h, 8, 1, f);
    fclose(f);
  }
  if (!c.digests.empty() && (f = fopen((path + ".digest").c_str(), "wb"))) {
    for (auto& d : c.digests) { fwrite(&d.first, 8, 1, f); fwrite(&d.second, 8, 1, f); }
    fclose(f);
  }
}
static std::string g_out;
static void on_term(int) {
  // CPU limit of one case: leave a mark; the driver decides (first occurrence is inconclusive).
  static const char m[] = "VH-CASE-TIMEOUT\n";
  ssize_t x = write(2, m, sizeof m - 1);
  (void)x;
  _exit(98);
}

}  // namespace vh

using namespace vh;
// usage: harness PROP --tier T --seed S --shard i --nshards n --out FILE --note FILE [--cases N] [--from K] [--case K] [--cpu SEC]
int main(int argc, char** argv) {
  Ctx c;
  std::string note;
  uint64_t from = 0;
  int cpu = 60;
  bool slow = getenv("VH_SLOW") != nullptr;
  if (argc < 2) {
    for (auto& m : modes()) printf("%s %llu %llu\n", m.prop, (unsigned long long)m.quick, (unsigned long long)m.deep);
    return 0;
  }
  if (!strcmp(argv[1], "--rule") && argc > 2) {
    for (auto& m : modes()) if (!strcmp(m.prop, argv[2])) printf("%s\n", m.rule);
    return 0;
  }
  c.prop = argv[1];
  c.tier = "quick";
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--tier") c.tier = v;
    else if (a == "--seed") c.seed = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--shard") c.shard = atoi(v.c_str());
    else if (a == "--nshards") c.nshards = atoi(v.c_str());
    else if (a == "--out") g_out = v;
    else if (a == "--note") note = v;
    else if (a == "--dir") c.outdir = v;
    else if (a == "--cases") c.cases = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--from") from = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--case") c.only_case = atol(v.c_str());
    else if (a == "--cpu") cpu = atoi(v.c_str());
    else if (a == "--replay") {}
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 97; }
  }
  if (const char* mb = getenv("VH_AS_MB")) {
    struct rlimit rl = {(rlim_t)atol(mb) << 20, (rlim_t)atol(mb) << 20};
    setrlimit(RLIMIT_AS, &rl);
  }
  const Mode* m = nullptr;
  for (auto& x : modes()) if (c.prop == x.prop) m = &x;
  if (!m) { fprintf(stderr, "no such mode %s\n", c.prop.c_str()); return 97; }
  if (!note.empty()) {
    int fd = open(note.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, kNoteMax) != 0) return 97;
    g_note = (char*)mmap(nullptr, kNoteMax, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (g_note == MAP_FAILED) return 97;
    close(fd);
  }
  signal(SIGVTALRM, on_term);
  // The library's diagnostics are executed but not kept; sanitizer reports go to the descriptor, not to the stream.
  if (FILE* nul = fopen("/dev/null", "w")) stderr = nul;
  g_ctx = &c;
  uint64_t total = c.n(m->quick, m->deep);
  uint64_t pseed = mix(c.seed, hash_str(c.prop));
  uint64_t first = (uint64_t)c.shard, step = (uint64_t)c.nshards;
  if (c.only_case >= 0) { first = (uint64_t)c.only_case; total = first + 1; step = 1; }
  for (uint64_t k = first; k < total; k += step) {
    if (k < from) continue;
    c.cur = k;
    c.r = Rng(mix(pseed, k));
    c.last_note.clear();
    if (g_note) { c.note("(no input yet)"); }
    struct itimerval tv = {{0, 0}, {cpu, 0}};
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    clock_t t0 = clock();
    m->fn(c);
    if (slow && clock() - t0 > CLOCKS_PER_SEC / 2) printf("slow case %llu: %.1f s\n", (unsigned long long)k, (double)(clock() - t0) / CLOCKS_PER_SEC);
    if (!g_out.empty() && c.viols.size() && (k / step) % 64 == 0) save(c, false, g_out);
  }
  struct itimerval off = {{0, 0}, {0, 0}};
  setitimer(ITIMER_VIRTUAL, &off, nullptr);
  c.cur = total;
  if (!g_out.empty()) save(c, true, g_out);
  else {
    printf("evaluations %llu distinct %zu\n", (unsigned long long)c.evaluations, c.distinct.size());
    for (auto& k : c.counters) printf("  %s = %llu\n", k.first.c_str(), (unsigned long long)k.second);
    for (auto& k : c.maxima) printf("  max %s = %llu\n", k.first.c_str(), (unsigned long long)k.second);
    for (auto& kv : c.viols) printf("VIOL [%s] x%llu case %llu: %s\n   input: %.2000s\n", kv.second.key.c_str(), (unsigned long long)kv.second.times,
                                    (unsigned long long)kv.second.c, kv.second.detail.c_str(), kv.second.input.c_str());
  }
  return 0;
}
