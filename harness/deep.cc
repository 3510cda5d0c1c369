#include "deep.h"

#include <inttypes.h>
#include <string.h>

#include <type_traits>

namespace vh {
struct Deep {
  std::string out, path;
  template <class T> void field(const char* n, const T& x) {
    size_t k = path.size();
    path += '.';
    path += n;
    val(x, 0);
    path.resize(k);
  }
  void leaf(const char* s) { out += path; out += '='; out += s; out += '\n'; }
  template <class T> typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type val(const T& x, int) {
    char b[32];
    uint64_t v = 0;
    memcpy(&v, &x, sizeof x);   // the stored bits, so that a garbage bool or enumerator is seen too
    snprintf(b, sizeof b, "%" PRIu64, v);
    leaf(b);
  }
  template <class T> typename std::enable_if<std::is_floating_point<T>::value>::type val(const T& x, int) { char b[64]; snprintf(b, sizeof b, "%a", (double)x); leaf(b); }
  void val(const std::string& x, int) { leaf(x.c_str()); }
  void val(const NaluChecksum& x, int) { leaf(x.GetPrintableChecksum().c_str()); }
  void val(const ParsingOptions& o, int) {
    leaf((std::string() + (o.add_offset ? '1' : '0') + (o.add_length ? '1' : '0') + (o.add_parsed_length ? '1' : '0') + (o.add_checksum ? '1' : '0') + (o.add_resolution ? '1' : '0')).c_str());
  }
  template <class I> void list(I b, I e, size_t n) {
    size_t k = path.size();
    char s[32];
    snprintf(s, sizeof s, "%zu values", n);
    leaf(s);
    for (size_t i = 0; b != e; ++b, ++i) {
      snprintf(s, sizeof s, "[%zu]", i);
      path += s;
      val(*b, 0);
      path.resize(k);
    }
  }
  template <class T> void val(const std::vector<T>& v, int) { list(v.begin(), v.end(), v.size()); }
  void val(const std::vector<bool>& v, int) { std::vector<int> x(v.begin(), v.end()); list(x.begin(), x.end(), x.size()); }
  template <class T, size_t N> void val(const std::array<T, N>& v, int) { list(v.begin(), v.end(), N); }
  template <class T, size_t N> void val(const T (&v)[N], int) { list(v, v + N, N); }
  template <class K, class T> void val(const std::map<K, T>& m, int) {
    size_t k = path.size();
    for (auto& kv : m) {
      path += "{" + std::to_string(kv.first) + "}";
      val(kv.second, 0);
      path.resize(k);
    }
  }
  template <class T> void ptr(const T* p) { if (!p) { leaf("null"); return; } val(*p, 0); }
  template <class T> void val(const std::unique_ptr<T>& p, int) { ptr(p.get()); }
  template <class T> void val(const std::shared_ptr<T>& p, int) { ptr(p.get()); }
  template <class T> auto val(const T& x, int) -> decltype(rwalk(std::declval<Deep&>(), x)) { rwalk(*this, x); }
  template <class T> typename std::enable_if<!std::is_integral<T>::value && !std::is_enum<T>::value && !std::is_floating_point<T>::value>::type val(const T&, long) {}
};
}  // namespace vh
#include "reflect_gen.h"
namespace vh {
#define D(T) \
  std::string deep(const T& s) { Deep d; rwalk(d, s); return d.out; }
D(Stream) D(Nal) D(NalPayload) D(PState) D(Box) D(H265RtpParser::RtpState) D(Vps) D(Sps) D(Pps) D(Slice) D(Sei)
#undef D
size_t deep_fields() { return kReflectedFields; }
std::string deep_diff(const std::string& a, const std::string& b, std::string* key) {
  if (a == b) return "";
  size_t i = 0, ls = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) { if (a[i] == '\n') ls = i + 1; i++; }
  auto line = [&](const std::string& s) { size_t e = s.find('\n', ls); return s.substr(ls, (e == std::string::npos ? s.size() : e) - ls); };
  std::string la = line(a), lb = line(b);
  if (key) *key = strip_idx(la.substr(0, la.find('=')));
  return "\"" + la + "\" / \"" + lb + "\"";
}
}  // namespace vh
