// Core of the monitoring harness: random source, independent bit writer, syntax walker, case recording, reporting.
// Nothing here uses the library under test.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace vh {

typedef std::vector<uint8_t> Bytes;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [0, n-1]
  uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
  // uniform in [lo, hi]
  int64_t range(int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    uint64_t span = (uint64_t)hi - (uint64_t)lo;
    if (span == UINT64_MAX) return (int64_t)next();
    return (int64_t)((uint64_t)lo + next() % (span + 1));
  }
  bool chance(double p) { return (double)(next() >> 11) / 9007199254740992.0 < p; }
  // small numbers much more likely than large ones
  uint64_t logbelow(uint64_t n) {
    if (n <= 1) return 0;
    int bits = 0;
    for (uint64_t k = n - 1; k; k >>= 1) bits++;
    uint64_t b = below((uint64_t)bits + 1);
    uint64_t v = b == 0 ? 0 : (((uint64_t)1 << (b - 1)) | below((uint64_t)1 << (b - 1)));
    return v >= n ? n - 1 : v;
  }
  Bytes bytes(size_t n) {
    Bytes b(n);
    for (auto& x : b) x = (uint8_t)next();
    return b;
  }
};

uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash_bytes(const Bytes& b, uint64_t h = 1469598103934665603ull) { return hash_bytes(b.data(), b.size(), h); }
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }
std::string hex(const Bytes& b, size_t max = SIZE_MAX);
Bytes unhex(const std::string& s);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// Independent MSB-first bit writer.
struct BitW {
  Bytes b;
  size_t n = 0;  // bits written
  void bit(int v) {
    if (n % 8 == 0) b.push_back(0);
    if (v) b[n / 8] = (uint8_t)(b[n / 8] | (0x80 >> (n % 8)));
    n++;
  }
  void put(uint64_t v, int bits) {
    for (int i = bits - 1; i >= 0; i--) bit(i >= 64 ? 0 : (int)((v >> i) & 1));
  }
  void ue(uint64_t v) {
    uint64_t x = v + 1;
    int l = 0;
    while (l < 63 && (x >> l) > 1) l++;
    put(0, l);
    put(x, l + 1);
  }
  void se(int64_t v) { ue(v > 0 ? (uint64_t)(2 * v - 1) : (uint64_t)(-2 * v)); }
  void trailing() {
    bit(1);
    while (n % 8) bit(0);
  }
  void align0() {
    while (n % 8) bit(0);
  }
  void append(const Bytes& x) {
    for (uint8_t c : x) put(c, 8);
  }
};
// Independent bit reader used by reference models.
struct BitR {
  const Bytes& b;
  size_t p = 0;
  explicit BitR(const Bytes& x, size_t pos = 0) : b(x), p(pos) {}
  size_t left() const { return b.size() * 8 - p; }
  int bit() {
    int v = (b[p / 8] >> (7 - p % 8)) & 1;
    p++;
    return v;
  }
  uint64_t get(int n) {
    uint64_t v = 0;
    while (n-- > 0) v = (v << 1) | (uint64_t)bit();
    return v;
  }
};

Bytes escape(const Bytes& rbsp);       // insert emulation prevention bytes (7.3.1.1 encoder side)
Bytes ref_unescape(const Bytes& nal);  // remove the 03 after each 00 00

// One coded syntax element.
struct Elem {
  const char* name;
  std::string path;
  int64_t val;
  size_t pos;   // first bit
  int nbits;    // coded size
  char kind;    // 'u', 'e' (ue), 's' (se), 'f' fixed
  int64_t lo, hi;
  bool enforced;  // the library promises to enforce [lo,hi]
  bool nodump;    // not shown in the dump
};

struct StopGen {};  // thrown to end generation early (bit budget, forced value)

// Walks a syntax description: generating values and bits (GEN), flattening an existing structure (FLAT), or - GEN with
// |dec| set - taking the values from given bits, which makes the same description a reference decoder.
class IO {
 public:
  enum Mode { GEN, FLAT };
  Mode mode;
  Rng* r = nullptr;
  BitW w;
  std::vector<Elem> tr;
  typedef std::vector<std::pair<std::string, int64_t>> Flat;
  Flat flat;
  std::string prefix;
  size_t budget = 400000;       // GEN: bits; FLAT: entries
  double wild = 0.15;           // GEN: chance of a boundary value instead of a typical one
  double hostile = 0;           // GEN: chance of an arbitrary (possibly invalid) value
  long force_idx = -1;          // GEN: index of the element to override ...
  int64_t force_val = 0;        // ... with this value
  bool force_stop = false;      // stop after the forced element
  bool forced = false;
  bool truncated = false;       // generation stopped early
  std::map<std::string, int64_t> pin;  // GEN: element name -> value to use (still counted as chosen)
  bool next_enforced = false, next_nodump = false;
  // reference decoding: the bits to read (position: w.n; what is read is written to w again)
  const Bytes* dec = nullptr;
  enum Verdict {
    D_VALID,     // every value in its range
    D_SOFT,      // complete, but with a value outside a range that need not be enforced
    D_END,       // the bits end inside a required element
    D_ENFORCED,  // a value outside an enforced range
    D_UNKNOWN    // not decided by this model
  } verdict = D_VALID;
  std::string why;
  [[noreturn]] void stop(Verdict v, const std::string& s) { verdict = v; why = s; truncated = true; throw StopGen(); }
  void soft(const std::string& s) { if (verdict == D_VALID) { verdict = D_SOFT; why = s; } }
  int64_t decode(const char* n, char kind, int bits);
  bool more() const;   // more_rbsp_data()
  void trailing();     // rbsp_trailing_bits()
  bool expected = false;  // FLAT: the structure walked is the expected one

  explicit IO(Rng& rng) : mode(GEN), r(&rng) {}
  IO() : mode(FLAT) {}
  bool gen() const { return mode == GEN; }
  bool over() const { return mode == FLAT && flat.size() > budget; }

  IO& E() { next_enforced = true; return *this; }
  IO& nodump() { next_nodump = true; return *this; }

  struct Scope {
    IO& io;
    size_t keep;
    Scope(IO& i, const std::string& s) : io(i), keep(i.prefix.size()) { io.prefix += s; io.prefix += '.'; }
    ~Scope() { io.prefix.resize(keep); }
  };

  void emit(const std::string& n, int64_t v) {
    if (flat.size() <= budget) flat.push_back(std::make_pair(prefix + n, v));
  }
  int64_t choose(const char* n, int64_t lo, int64_t hi, int64_t soft, int64_t codemax, char kind);
  void code(const char* n, char kind, int bits, int64_t v, int64_t lo, int64_t hi, long idx = -1);

  // typed front ends; T is any integral type (bool included)
  template <class T>
  void u(const char* n, T& f, int bits, int64_t lo = 0, int64_t hi = -1, int64_t soft = INT64_MIN, long idx = -1) {
    int64_t mx = bits >= 63 ? INT64_MAX : (((int64_t)1 << bits) - 1);
    if (hi < lo) hi = mx;
    if (gen()) { int64_t v = dec ? decode(n, 'u', bits) : choose(n, lo, hi, soft, mx, 'u'); f = (T)v; code(n, 'u', bits, v, lo, hi, idx); }
    else flatten(n, (int64_t)f, idx);
  }
  template <class T>
  void ue(const char* n, T& f, int64_t lo, int64_t hi, int64_t soft = INT64_MIN, long idx = -1) {
    if (gen()) { int64_t v = dec ? decode(n, 'e', 0) : choose(n, lo, hi, soft, 0xFFFFFFFEll, 'e'); f = (T)v; code(n, 'e', 0, v, lo, hi, idx); }
    else flatten(n, (int64_t)f, idx);
  }
  template <class T>
  void se(const char* n, T& f, int64_t lo, int64_t hi, int64_t soft = INT64_MIN, long idx = -1) {
    if (gen()) { int64_t v = dec ? decode(n, 's', 0) : choose(n, lo, hi, soft, 0x7FFFFFFFll, 's'); f = (T)v; code(n, 's', 0, v, lo, hi, idx); }
    else flatten(n, (int64_t)f, idx);
  }
  template <class T>
  void flag(const char* n, T& f, double p = 0.5, long idx = -1) {
    if (gen()) { int64_t v = dec ? decode(n, 'u', 1) : choose_flag(n, p); f = (T)v; code(n, 'u', 1, v, 0, 1, idx); }
    else flatten(n, (int64_t)f, idx);
  }
  // vector element i (grown on demand in GEN; reported missing in FLAT)
  template <class T> static void grow(std::vector<T>& v, size_t n) { if (v.size() < n) v.resize(n); }
  template <class T, size_t N> static void grow(std::array<T, N>&, size_t) {}
  template <class V> bool at(const char* n, V& v, size_t i) {
    if (gen()) { grow(v, i + 1); return true; }
    if (i < v.size()) return true;
    emit(std::string(n) + "[" + std::to_string(i) + "] missing", -1);
    next_enforced = next_nodump = false;
    return false;
  }
  template <class V> void uv(const char* n, V& v, size_t i, int bits, int64_t lo = 0, int64_t hi = -1, int64_t soft = INT64_MIN) {
    if (!at(n, v, i)) return;
    typename V::value_type x = v[i];
    u(n, x, bits, lo, hi, soft, (long)i);
    v[i] = x;
  }
  template <class V> void uev(const char* n, V& v, size_t i, int64_t lo, int64_t hi, int64_t soft = INT64_MIN) {
    if (!at(n, v, i)) return;
    typename V::value_type x = v[i];
    ue(n, x, lo, hi, soft, (long)i);
    v[i] = x;
  }
  template <class V> void sev(const char* n, V& v, size_t i, int64_t lo, int64_t hi, int64_t soft = INT64_MIN) {
    if (!at(n, v, i)) return;
    typename V::value_type x = v[i];
    se(n, x, lo, hi, soft, (long)i);
    v[i] = x;
  }
  template <class V> void flagv(const char* n, V& v, size_t i, double p = 0.5) {
    if (!at(n, v, i)) return;
    typename V::value_type x = v[i];
    flag(n, x, p, (long)i);
    v[i] = x;
  }
  // a value the structure must hold although it is not coded here
  template <class T> void derived(const char* n, T& f, int64_t v) {
    if (gen()) f = (T)v; else flatten(n, (int64_t)f, -1);
  }
  // the vector must hold exactly the elements walked
  template <class V> void size(const char* n, const V& v) {
    if (!gen()) emit(std::string(n) + ".size", (int64_t)v.size());
  }
  // coded bits that have no place in the structure
  void fixed(const char* n, uint64_t v, int bits) {
    if (gen()) code(n, 'f', bits, (int64_t)v, (int64_t)v, (int64_t)v);
  }
  // optional substructure held by pointer; returns true if it can be walked
  template <class P, class Make> bool sub(const char* n, P& p, bool present, Make make) {
    if (gen()) { if (present) p = make(); else p = nullptr; return present; }
    emit(std::string(n) + "?", p != nullptr);
    return p != nullptr && present;
  }
  bool aligned() const { return w.n % 8 == 0; }

 private:
  int64_t choose_flag(const char* n, double p);
  void flatten(const char* n, int64_t v, long idx);
};

// First difference of two flattened structures; empty if equal. |key| gets the path with indices removed.
std::string diff(const IO::Flat& want, const IO::Flat& got, std::string* key);
std::string strip_idx(const std::string& s);

// ---------------------------------------------------------------- run control
// A run executes the cases [first, first+count) of one mode; each case has its own random source.
struct Ctx {
  std::string prop, tier, outdir;
  uint64_t seed = 1;
  int shard = 0, nshards = 1;
  uint64_t cases = 0;       // total over all shards
  long only_case = -1;      // replay
  uint64_t cur = 0;         // current case
  Rng r;
  // observations
  uint64_t evaluations = 0;
  std::set<uint64_t> distinct;
  std::map<std::string, uint64_t> counters;
  std::map<std::string, uint64_t> maxima;
  std::vector<std::string> samples;
  struct Viol { std::string key, detail, input; uint64_t c; uint64_t times; };
  std::map<std::string, Viol> viols;

  bool thorough() const { return tier == "thorough"; }
  uint64_t n(uint64_t quick, uint64_t deep) const { return cases ? cases : (thorough() ? deep : quick); }
  void count(const std::string& k, uint64_t v = 1) { counters[k] += v; }
  void maximum(const std::string& k, uint64_t v) { if (v > maxima[k]) maxima[k] = v; }
  void eval(uint64_t h, bool nontrivial = true) { evaluations++; if (nontrivial) distinct.insert(h); }
  // results to be compared with those of another process running the same cases
  std::vector<std::pair<uint64_t, uint64_t>> digests;
  void digest(const std::string& text);
  void sample(const std::string& s, size_t max = 3) { if (samples.size() < max) samples.push_back(s); }
  // record the input about to be used, so that a crash can be attributed
  void note(const std::string& what);
  void note(const char* what, const Bytes& b) { note(std::string(what) + " " + hex(b, 60000)); }
  std::string last_note;
  void violation(const std::string& key, const std::string& detail);
};

typedef void (*CaseFn)(Ctx&);
struct Mode {
  const char* prop;
  uint64_t quick, deep;   // default number of cases
  CaseFn fn;
  const char* rule;
};
std::vector<Mode>& modes();
struct RegMode {
  RegMode(const char* p, uint64_t q, uint64_t d, CaseFn f, const char* rule) { modes().push_back(Mode{p, q, d, f, rule}); }
};
#define VH_MODE(id, quick, deep, rule) \
  static void mode_##id(::vh::Ctx& c); \
  static ::vh::RegMode reg_##id(#id, quick, deep, mode_##id, rule); \
  static void mode_##id(::vh::Ctx& c)

}  // namespace vh
