// Coded units, streams and containers built from the syntax descriptions, with the expected parse results.
#pragma once
#include "syn.h"

namespace vh {

enum Kind { K_VPS, K_SPS, K_PPS, K_SLICE, K_SEI, K_AUD, K_OTHER, K_NONE };
extern const char* const kKindName[];
Kind kind_of(uint32_t nut);

struct Unit {
  uint32_t nut = 0, layer = 0, tid1 = 1, fzb = 0;
  Bytes raw;   // header and payload, before escaping
  Bytes nal;   // as carried
  Kind kind = K_OTHER;
  bool broken = false;        // the payload must not parse (nothing reported for it)
  std::string why;            // what was broken
  std::shared_ptr<Vps> vps;   // expected contents
  std::shared_ptr<Sps> sps;
  std::shared_ptr<Pps> pps;
  std::shared_ptr<Slice> slice;
  std::shared_ptr<Sps> ssps;  // sets in force for the slice
  std::shared_ptr<Pps> spps;
  std::shared_ptr<Sei> sei;
  std::shared_ptr<Aud> aud;
  std::vector<Elem> tr;       // payload elements; positions are relative to the payload (after the 2 header bytes)
  size_t need_bits = 0;       // end of the last required element in the payload
  size_t payload_bits = 0;    // end of the payload syntax (before slice data)
};

struct Opts {
  double wild = 0.15, hostile = 0;
  size_t budget = 60000;
  std::map<std::string, int64_t> pin;
  int max_vps_id = 3, max_sps_id = 2, max_pps_id = 3;   // small spaces, so that sets get replaced
  double data = 1.0;          // slices carry slice data
  double twin = 0;            // parameter sets that differ from the one they replace in a single element
};

struct Gen {
  Rng& r;
  Opts o;
  // model of the sets in force
  std::map<uint32_t, std::shared_ptr<Vps>> vps;
  std::map<uint32_t, std::shared_ptr<Sps>> sps;
  std::map<uint32_t, std::shared_ptr<Pps>> pps;
  explicit Gen(Rng& rng) : r(rng) {}

  // each builds a unit and, for parameter sets, enters it in the model
  Unit make_vps();
  Unit make_sps();
  Unit make_pps(long sps_id = -1);
  Unit make_slice(long nut = -1);      // broken if there is no usable chain of sets
  Unit make_sei();
  Unit make_aud();
  Unit make_other(bool allow_rtp_types = true);
  Unit make_broken(Kind k);            // cut or out-of-range structure; model unchanged
  Unit make(Kind k);
  // a stream of n units, starting (usually) with parameter sets
  std::vector<Unit> stream(size_t n, double broken = 0, bool rtp_safe = false);
  void enter(const Unit& u);
  // |from| (a parameter set) with another value of one element and the same identifier; false if none was found
  bool twin(const Unit& from, Unit* out);
  uint64_t twins = 0;
  // part of a real encoder's stream, with the values the reference decoder gives; empty if there is none
  std::vector<Unit> real(size_t max);
  bool has_chain() const;
  IO io() const;

 private:
  void header(Unit& u, uint32_t nut, bool base_layer);
  std::map<uint64_t, Unit> recent;   // the units that entered the model, when twins are wanted
};

// more slice data, more extension data of a video parameter set that has some, or a longer payload of a type that is
// not decoded; other units are left alone
void inflate(Rng& r, Unit& u, size_t more);
void finish(Unit& u, const Bytes& payload);   // sets raw and nal from the header fields and payload

// streams of real encoders, as shipped with the repository
struct RealFile { std::string name; std::vector<Bytes> nals; };
const std::vector<RealFile>& real_files();
// the leading sets of one and up to |max| units from somewhere later
std::vector<Bytes> real_window(Rng& r, size_t max, std::string* name);

// reference decoding of one payload; |pps| and |sps| look up the sets in force (known = false: not judged)
template <class T> using SetOf = std::function<std::shared_ptr<T>(uint32_t id, bool* known)>;
struct Ref {
  Unit u;                 // contents, when complete
  IO::Verdict v = IO::D_UNKNOWN;
  std::string why;
  std::vector<Elem> tr;
  size_t end = 0;         // bits of the payload syntax, without trailing bits
};
Ref ref_decode(Rng& r, uint32_t nut, const Bytes& payload, const SetOf<Pps>& pps, const SetOf<Sps>& sps);

// containers
Bytes annexb(Rng& r, const std::vector<Unit>& us, std::vector<size_t>* offs = nullptr, bool junk = true);
Bytes prefixed(const std::vector<Unit>& us, size_t width, std::vector<size_t>* offs = nullptr);
typedef H265ConfigurationBoxParser::ConfigurationBoxState Box;
// walks a decoder configuration record; GEN writes the units, FLAT lists everything but the parsed units
void syn_hvcc(IO& io, Box& s, const std::vector<std::vector<Unit>>& arrays);
// aggregation packet (RFC 7798, 4.4.2); every unit must be shorter than 65536 bytes
Bytes rtp_ap(const std::vector<Unit>& us);
// fragment of |u| (RFC 7798, 4.4.3) carrying the bytes [from, to) of u.nal; from >= 2
Bytes rtp_fu(const Unit& u, size_t from, size_t to, bool start, bool end);

// comparisons; empty when equal
std::string cmp_payload(const Unit& u, const NalPayload* p, std::string* key);
std::string cmp_unit(const Unit& u, const Nal* n, std::string* key);
std::string cmp_header(const Unit& u, const NalHeader* h, std::string* key);
std::string cmp_state(const Gen& g, const PState& s, std::string* key);
std::string cmp_vps(const Vps& a, const Vps& b, std::string* key);
std::string cmp_sps(const Sps& a, const Sps& b, std::string* key);
std::string cmp_pps(const Pps& a, const Pps& b, std::string* key);
std::string cmp_slice(const Slice& a, const Slice& b, const Sps& sps, const Pps& pps, std::string* key);
std::string cmp_sei(const Sei& a, const Sei& b, std::string* key);

// deep comparison of two library results without a model (both must have been parsed by the library)
// walks everything reachable; slices are compared through their dumps
std::string dump(const Stream& s, int indent = -1);
std::string dump(const Nal& s, ParsingOptions o, int indent = -1);
std::string dump(const NalPayload& p, uint32_t nut, ParsingOptions o, int indent = -1);
std::string dump_state(const PState& s);
template <class F> std::string capture(F f) {
  char* buf = nullptr;
  size_t n = 0;
  FILE* fp = open_memstream(&buf, &n);
  f(fp);
  fclose(fp);
  std::string s(buf, n);
  free(buf);
  return s;
}
std::unique_ptr<PState> clone_refs(const PState& s);   // new state holding the same sets

ParsingOptions opts_from(uint32_t bits);
inline ParsingOptions opts_all() { return opts_from(31); }

// A heap copy of exactly the given size: reading outside it is reported by AddressSanitizer.
struct Exact {
  uint8_t* p;
  size_t n;
  explicit Exact(const Bytes& b);
  Exact(const uint8_t* d, size_t len);
  ~Exact();
  Exact(const Exact&) = delete;
  Exact& operator=(const Exact&) = delete;
};

// A read-only view of |size| bytes: zeros with |tail| at the end.  Takes no memory for the zeros, so sizes beyond 4 GiB
// are cheap; the byte after the end cannot be read.
struct Sparse {
  uint8_t* p = nullptr;
  size_t n = 0;
  Sparse(size_t size, const Bytes& tail);
  ~Sparse();
  void put(size_t at, const Bytes& b);
  Sparse(const Sparse&) = delete;
  Sparse& operator=(const Sparse&) = delete;

 private:
  uint8_t* map_ = nullptr;
  size_t len_ = 0;
};
// A size around a place where a narrower counter of bytes or bits would wrap.
size_t wrap_size(Rng& r, size_t max);

void mutate(Rng& r, Bytes& b, int times = -1);
std::string describe(const std::vector<Unit>& us);
uint64_t shape_hash(const std::vector<Elem>& tr);   // which elements are present (indices dropped, counts bucketed)
}  // namespace vh
