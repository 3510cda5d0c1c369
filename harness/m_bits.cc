// B01..B04: bit reader, bit writer, emulation prevention, end of payload.  Oracle: bit-array models.
#include <string.h>

#include "build.h"

namespace vh {

static Bytes bit_bytes(Rng& r, size_t n) {
  Bytes b = r.bytes(n);
  // long runs of equal bits make long Exp-Golomb codes
  size_t k = r.below(4);
  while (k-- && n) {
    size_t a = r.below(n), l = 1 + r.logbelow(12);
    uint8_t v = r.chance(0.8) ? 0 : 0xff;
    for (size_t i = a; i < n && i < a + l; i++) b[i] = v;
  }
  if (n && r.chance(0.3)) for (auto& x : b) if (r.chance(0.5)) x = (uint8_t)(1u << r.below(8));
  return b;
}
static size_t pos_of(BitBuffer& b) {
  size_t by = 0, bi = 0;
  b.GetCurrentOffset(&by, &bi);
  return by * 8 + bi;
}
static int count_bits(uint64_t v) { int n = 0; while (v) { n++; v >>= 1; } return n; }

VH_MODE(B01, 120000, 6000000, "one sequence of read operations on one buffer, distinct by buffer and operations") {
  size_t n = c.r.chance(0.05) ? 0 : c.r.chance(0.4) ? c.r.logbelow(64) : 8 + c.r.below(80);
  Bytes data = bit_bytes(c.r, n);
  // the operations work on the last n bytes of a buffer that may be very large; positions are counted from there
  size_t base = c.r.chance(0.03) ? wrap_size(c.r, SIZE_MAX) : 0;
  Exact e(data);
  Sparse sp(base + n, data);
  BitBuffer bb(base ? sp.p : e.p, base + n);
  size_t pos = 0, total = n * 8;
  uint64_t h = mix(hash_bytes(data), base);
  std::string log = base ? fmt("%zu zero bytes then ", base) : std::string("buffer ");
  log += hex(data) + " ops";
  if (base) {
    c.count(base > 500000000 ? "buffers of more than 2^32 bits" : "buffers after many zero bytes");
    size_t by = 0, bi = 0;
    if (bb.RemainingBitCount() != (base + n) * 8) c.violation("RemainingBitCount", fmt("%llu for %zu bytes", (unsigned long long)bb.RemainingBitCount(), base + n));
    bool ok = c.r.chance(0.3) ? bb.ConsumeBytes(base) : c.r.chance(0.5) ? bb.ConsumeBits(base * 8) : bb.Seek(base, 0);
    bb.GetCurrentOffset(&by, &bi);
    if (!ok || by != base || bi != 0) { c.violation("position in a large buffer", fmt("byte %zu bit %zu instead of byte %zu (%d)", by, bi, base, ok)); return; }
  }
  size_t ops = 1 + c.r.below(30);
  bool nontrivial = false;
  for (size_t k = 0; k < ops; k++) {
    BitR rd(data, pos);
    int op = (int)c.r.below(15);
    bool want = true, ok = false, strict = true;   // strict: a failure must leave the position unchanged
    size_t npos = pos;
    uint64_t wv = 0, gv = 0;
    uint64_t arg = 0;
    bool has_val = true;
    const char* nm = "";
    auto need = [&](uint64_t bits) { return bits <= total - pos; };
    static const uint64_t big[] = {33, 64, 65, 128, 1ull << 32, (1ull << 61), SIZE_MAX, SIZE_MAX - 7, SIZE_MAX / 8, SIZE_MAX / 8 + 1};
    switch (op) {
      case 0: case 1: {
        nm = op ? "PeekBits32" : "ReadBits32";
        arg = c.r.chance(0.05) ? big[c.r.below(10)] : c.r.below(36);
        want = arg <= 32 && need(arg);
        if (want) { wv = rd.get((int)arg); if (!op) npos += arg; }
        uint32_t v = 0;
        c.note(log + fmt(" %s(%llu)", nm, (unsigned long long)arg));
        ok = op ? bb.PeekBits(arg, v) : bb.ReadBits(arg, v);
        gv = v;
        break;
      }
      case 2: case 3: {
        nm = op == 3 ? "PeekBits64" : "ReadBits64";
        arg = c.r.chance(0.05) ? big[c.r.below(10)] : c.r.below(68);
        want = arg <= 64 && need(arg);
        if (want) { wv = rd.get((int)arg); if (op == 2) npos += arg; }
        uint64_t v = 0;
        c.note(log + fmt(" %s(%llu)", nm, (unsigned long long)arg));
        ok = op == 3 ? bb.PeekBits(arg, v) : bb.ReadBits(arg, v);
        gv = v;
        break;
      }
      case 4: {
        nm = "ReadUInt8"; uint8_t v = 0; want = need(8);
        if (want) { wv = rd.get(8); npos += 8; }
        c.note(log + " " + nm); ok = bb.ReadUInt8(v); gv = v; break;
      }
      case 5: {
        nm = "ReadUInt16"; uint16_t v = 0; want = need(16);
        if (want) { wv = rd.get(16); npos += 16; }
        c.note(log + " " + nm); ok = bb.ReadUInt16(v); gv = v; break;
      }
      case 6: {
        nm = "ReadUInt32"; uint32_t v = 0; want = need(32);
        if (want) { wv = rd.get(32); npos += 32; }
        c.note(log + " " + nm); ok = bb.ReadUInt32(v); gv = v; break;
      }
      case 7: {
        nm = "ReadBytes"; arg = c.r.logbelow(12); want = need(arg * 8);
        Bytes out(arg ? arg : 1, 0xEE), wout(arg ? arg : 1, 0xEE);
        if (want) { for (size_t i = 0; i < arg; i++) wout[i] = (uint8_t)rd.get(8); npos += arg * 8; }
        c.note(log + fmt(" %s(%llu)", nm, (unsigned long long)arg));
        ok = bb.ReadBytes(arg, out.data());
        if (want && ok && out != wout) c.violation("ReadBytes value", fmt("read %s expected %s", hex(out).c_str(), hex(wout).c_str()));
        has_val = false; strict = false; break;
      }
      case 8: {
        nm = "ReadNonSymmetric";
        arg = c.r.chance(0.5) ? 1 + c.r.below(20) : 1 + c.r.logbelow(1u << 31);
        if (c.r.chance(0.1)) arg = 1u << 31;
        int cb = count_bits(arg);
        uint64_t m = (1ull << cb) - arg;
        want = need((uint64_t)cb - 1);
        if (want) {
          uint64_t v = rd.get(cb - 1);
          if (v < m) { wv = v; npos += (size_t)cb - 1; }
          else if (need((uint64_t)cb)) { wv = (v << 1) + (uint64_t)rd.bit() - m; npos += (size_t)cb; }
          else want = false;
        }
        uint32_t v = 0;
        c.note(log + fmt(" %s(%llu)", nm, (unsigned long long)arg));
        ok = c.r.chance(0.5) ? bb.ReadNonSymmetric((uint32_t)arg, v) : bb.ReadNonSymmetric(&v, (uint32_t)arg);
        gv = v; strict = false; break;
      }
      case 9: case 10: {
        nm = op == 9 ? "ReadExponentialGolomb" : "ReadSignedExponentialGolomb";
        size_t z = 0;
        while (rd.left() && rd.bit() == 0) z++;
        want = z < 32 && need(2 * z + 1);
        uint64_t code = 0;
        if (want) { rd.p = pos + z; code = rd.get((int)z + 1) - 1; npos += 2 * z + 1; }
        c.maximum("zero bits before an Exp-Golomb value", want ? z : 0);
        c.note(log + " " + nm);
        if (op == 9) { uint32_t v = 0; ok = bb.ReadExponentialGolomb(v); gv = v; wv = code; }
        else {
          int32_t v = 0;
          ok = bb.ReadSignedExponentialGolomb(v);
          gv = (uint64_t)(int64_t)v;
          int64_t sv = (code & 1) ? (int64_t)(code / 2 + 1) : -(int64_t)(code / 2);
          wv = (uint64_t)sv;
          if (want && (sv > INT32_MAX || sv < INT32_MIN)) { want = false; npos = pos; }
        }
        if (!want && z >= 32 && need(2 * z + 1)) c.count("values that do not fit refused");
        break;
      }
      case 11: nm = "ConsumeBytes"; arg = c.r.chance(0.1) ? big[c.r.below(10)] : c.r.logbelow(20);
        want = arg <= total / 8 && need(arg * 8); if (want) npos += arg * 8;
        c.note(log + fmt(" %s(%llu)", nm, (unsigned long long)arg)); ok = bb.ConsumeBytes(arg); has_val = false; break;
      case 12: nm = "ConsumeBits"; arg = c.r.chance(0.1) ? big[c.r.below(10)] : c.r.logbelow(80);
        want = need(arg); if (want) npos += arg;
        c.note(log + fmt(" %s(%llu)", nm, (unsigned long long)arg)); ok = bb.ConsumeBits(arg); has_val = false; break;
      default: {
        nm = "Seek";
        uint64_t by = c.r.chance(0.05) ? std::min<uint64_t>(big[c.r.below(10)], SIZE_MAX - base) : c.r.below(n + 2), bi = c.r.chance(0.1) ? big[c.r.below(10)] : c.r.below(10);
        arg = by * 16 + bi;
        want = bi <= 7 && by <= n && !(by == n && bi > 0);
        if (want) npos = by * 8 + bi;
        c.note(log + fmt(" %s(%llu,%llu)", nm, (unsigned long long)by, (unsigned long long)bi)); ok = bb.Seek(base + by, bi); has_val = false; break;
      }
    }
    log += fmt(" %s(%llu)", nm, (unsigned long long)arg);
    h = mix(h, mix((uint64_t)op, arg));
    c.count(std::string(nm) + (want ? " done" : " refused"));
    if (op < 11) nontrivial = true;
    if (ok != want) { c.violation(std::string(nm) + (want ? " refused" : " accepted"), fmt("%s(%llu) at bit %zu of %zu returned %d, expected %d", nm, (unsigned long long)arg, pos, total, ok, want)); break; }
    if (ok && has_val && gv != wv) c.violation(std::string(nm) + " value", fmt("%s(%llu) at bit %zu gave %lld, expected %lld", nm, (unsigned long long)arg, pos, (long long)gv, (long long)wv));
    size_t now = (pos_of(bb) - base * 8);
    if (!ok && !strict) {
      if (now > total) { c.violation(std::string(nm) + " position", "position beyond the buffer"); break; }
      bb.Seek(base + pos / 8, pos % 8);
      now = (pos_of(bb) - base * 8);
    }
    if (now != npos) { c.violation(std::string(nm) + " position", fmt("%s(%llu) at bit %zu: position is now %zu, expected %zu", nm, (unsigned long long)arg, pos, now, npos)); break; }
    pos = npos;
    if (bb.RemainingBitCount() != total - pos) c.violation("RemainingBitCount", fmt("%llu, expected %zu", (unsigned long long)bb.RemainingBitCount(), total - pos));
  }
  c.eval(h, nontrivial);
  c.sample(log.substr(0, 200));
}

VH_MODE(B02, 80000, 4000000, "one sequence of write operations on one buffer followed by reading back") {
  size_t n = c.r.chance(0.03) ? 0 : c.r.chance(0.4) ? c.r.logbelow(80) : 16 + c.r.below(120);
  Bytes init = c.r.chance(0.3) ? Bytes(n, 0xff) : c.r.bytes(n);
  Exact e(init);
  std::vector<uint8_t> model(n * 8);
  for (size_t i = 0; i < n * 8; i++) model[i] = (init[i / 8] >> (7 - i % 8)) & 1;
  BitBufferWriter w(e.p, e.n);
  size_t pos = 0, total = n * 8;
  struct Op { int op; uint64_t val, arg; size_t at; };
  std::vector<Op> done;
  std::string log = "buffer " + hex(init) + " ops";
  uint64_t h = hash_bytes(init);
  size_t ops = 1 + c.r.below(30);
  for (size_t k = 0; k < ops; k++) {
    int op = (int)c.r.below(9);
    uint64_t val = c.r.chance(0.3) ? c.r.logbelow(1000) : c.r.next() >> c.r.below(64), arg = 0;
    if (c.r.chance(0.15)) val = (1ull << c.r.below(64)) + c.r.below(3) - 1;   // around the powers of two
    if (c.r.chance(0.05)) val = 0 - val;
    std::vector<uint8_t> bits;
    auto push = [&](uint64_t v, int nb) { for (int i = nb - 1; i >= 0; i--) bits.push_back(i >= 64 ? 0 : (uint8_t)((v >> i) & 1)); };
    auto ue = [&](uint64_t v) { int nb = count_bits(v + 1); push(0, nb - 1); push(v + 1, nb); };
    bool want = true, ok = false;
    const char* nm = "";
    switch (op) {
      case 0: nm = "WriteUInt8"; val &= 0xff; push(val, 8); break;
      case 1: nm = "WriteUInt16"; val &= 0xffff; push(val, 16); break;
      case 2: nm = "WriteUInt32"; val &= 0xffffffffu; push(val, 32); break;
      case 3: case 4: nm = "WriteBits"; arg = c.r.chance(0.03) ? 65 + c.r.logbelow(1ull << 40) : c.r.below(65);
        if (arg > 64) want = false; else push(val, (int)arg); break;
      case 5: {
        nm = "WriteNonSymmetric"; arg = c.r.chance(0.5) ? 1 + c.r.below(20) : 1 + c.r.logbelow(1u << 31); if (c.r.chance(0.1)) arg = 1u << 31;
        val %= arg;
        int cb = count_bits(arg);
        uint64_t m = (1ull << cb) - arg;
        if (val < m) push(val, cb - 1); else push(val + m, cb);
        size_t sz = BitBufferWriter::SizeNonSymmetricBits((uint32_t)val, (uint32_t)arg);
        if (sz != bits.size()) c.violation("SizeNonSymmetricBits", fmt("%zu bits for %llu of %llu, expected %zu", sz, (unsigned long long)val, (unsigned long long)arg, bits.size()));
        break;
      }
      case 6: nm = "WriteExponentialGolomb"; val &= 0xffffffffu; if (c.r.chance(0.1)) val = 0xfffffffeu + c.r.below(2);
        if (val == 0xffffffffu) want = false; else ue(val); break;
      case 7: {
        nm = "WriteSignedExponentialGolomb";
        int64_t s = (int32_t)(uint32_t)val;
        if (c.r.chance(0.1)) s = c.r.chance(0.3) ? INT32_MIN : c.r.chance(0.5) ? INT32_MIN + 1 : INT32_MAX;
        val = (uint64_t)s;
        if (s == INT32_MIN) want = false;
        else ue(s > 0 ? (uint64_t)(2 * s - 1) : (uint64_t)(-2 * s));
        break;
      }
      default: nm = "Seek"; arg = c.r.below(n + 1); val = arg == n ? 0 : c.r.below(8); break;
    }
    c.note(log + fmt(" %s(%lld,%llu)", nm, (long long)val, (unsigned long long)arg));
    if (op == 8) {
      ok = w.Seek(arg, val);
      if (!ok) { c.violation("writer Seek", "refused"); return; }
      pos = arg * 8 + val;
      log += fmt(" Seek(%llu,%llu)", (unsigned long long)arg, (unsigned long long)val);
      continue;
    }
    if (bits.size() > total - pos) want = false;
    switch (op) {
      case 0: ok = w.WriteUInt8((uint8_t)val); break;
      case 1: ok = w.WriteUInt16((uint16_t)val); break;
      case 2: ok = w.WriteUInt32((uint32_t)val); break;
      case 3: case 4: ok = w.WriteBits(val, arg); break;
      case 5: ok = w.WriteNonSymmetric((uint32_t)val, (uint32_t)arg); break;
      case 6: ok = w.WriteExponentialGolomb((uint32_t)val); break;
      default: ok = w.WriteSignedExponentialGolomb((int32_t)val); break;
    }
    log += fmt(" %s(%lld,%llu)", nm, (long long)val, (unsigned long long)arg);
    h = mix(h, mix((uint64_t)op * 131 + arg, val));
    c.count(std::string(nm) + (want ? " done" : " refused"));
    if (ok != want) { c.violation(std::string(nm) + (want ? " refused" : " accepted"), fmt("%s(%lld,%llu) at bit %zu of %zu returned %d, expected %d", nm, (long long)val, (unsigned long long)arg, pos, total, ok, want)); return; }
    if (ok) {
      // what was written before there is no longer readable
      for (size_t i = 0; i < done.size();) {
        size_t en = done[i].at + done[i].op / 16;
        if (done[i].at < pos + bits.size() && en > pos) done.erase(done.begin() + (long)i); else i++;
      }
      for (size_t i = 0; i < bits.size(); i++) model[pos + i] = bits[i];
      done.push_back(Op{op + 16 * (int)bits.size(), val, arg, pos});
      pos += bits.size();
    }
    if (pos_of(w) != pos) { c.violation(std::string(nm) + " position", fmt("position %zu, expected %zu", pos_of(w), pos)); return; }
    for (size_t i = 0; i < total; i++) {
      if (((e.p[i / 8] >> (7 - i % 8)) & 1) != model[i]) { c.violation(std::string(nm) + " bits", fmt("bit %zu of the buffer is wrong after %s(%lld,%llu)", i, nm, (long long)val, (unsigned long long)arg)); return; }
    }
  }
  // read everything back that has not been overwritten
  BitBuffer rb(e.p, e.n);
  c.note(log + " read back");
  for (auto& o : done) {
    if (!rb.Seek(o.at / 8, o.at % 8)) { c.violation("read back seek", "refused"); return; }
    uint32_t v = 0;
    uint64_t v64 = 0;
    int32_t s = 0;
    bool ok = false;
    uint64_t got = 0, want = o.val;
    switch (o.op % 16) {
      case 0: { uint8_t b = 0; ok = rb.ReadUInt8(b); got = b; break; }
      case 1: { uint16_t b = 0; ok = rb.ReadUInt16(b); got = b; break; }
      case 2: ok = rb.ReadUInt32(v); got = v; break;
      case 3: case 4: ok = rb.ReadBits(o.arg, v64); got = v64; want = o.arg == 64 ? o.val : o.val & ((1ull << o.arg) - 1); break;
      case 5: ok = rb.ReadNonSymmetric((uint32_t)o.arg, v); got = v; break;
      case 6: ok = rb.ReadExponentialGolomb(v); got = v; break;
      default: ok = rb.ReadSignedExponentialGolomb(s); got = (uint64_t)(int64_t)s; break;
    }
    c.count("values read back");
    if (!ok || got != want) c.violation(fmt("read back of operation %d", o.op % 16), fmt("value %lld written at bit %zu reads back as %lld (%d)", (long long)want, o.at, (long long)got, ok));
    if (pos_of(rb) != o.at + (size_t)o.op / 16) c.violation(fmt("read back size of operation %d", o.op % 16), "consumed bits differ from written bits");
  }
  c.eval(h, !done.empty());
  c.sample(log.substr(0, 200));
}

VH_MODE(B03, 60000, 3000000, "one payload or byte string, distinct by content") {
  size_t n = c.r.chance(0.02) ? c.r.below(5000) : c.r.logbelow(300);
  if (c.cur % 600 == 7) n = wrap_size(c.r, c.cur % 60000 == 7 ? (size_t)1 << 24 : 65536) + c.r.below(70000);
  if (n >= 65536) c.count("strings of 65536 bytes and more");
  Bytes b = c.r.bytes(n);
  double z = c.r.chance(0.3) ? 0 : c.r.chance(0.5) ? 0.5 : 0.85;
  for (auto& x : b) if (c.r.chance(z)) x = (uint8_t)(c.r.chance(0.6) ? 0 : c.r.below(5));
  // arbitrary bytes
  c.note("bytes", b);
  {
    Exact e(b);
    Bytes got = UnescapeRbsp(e.p, e.n), want = ref_unescape(b);
    c.count("03 bytes removed", b.size() - want.size());
    if (got != want) c.violation("unescape", fmt("%s gives %s, expected %s", hex(b, 200).c_str(), hex(got, 200).c_str(), hex(want, 200).c_str()));
    c.eval(hash_bytes(b), b.size() != want.size());
    if (!b.empty() && memcmp(e.p, b.data(), b.size())) c.violation("unescape input", "input modified");
  }
  // encoder round trip
  Bytes p = b;
  while (!p.empty() && p.back() == 0) p.pop_back();
  if (!p.empty() && c.r.chance(0.2)) { p.push_back(0); p.push_back(0); }   // cabac_zero_words
  Bytes esc = escape(p);
  c.note("escaped", esc);
  {
    Exact e(esc);
    Bytes got = UnescapeRbsp(e.p, e.n);
    c.count("03 bytes inserted and removed", esc.size() - p.size());
    if (got != p) c.violation("unescape of escaped payload", fmt("%s comes back as %s", hex(p, 200).c_str(), hex(got, 200).c_str()));
    c.eval(hash_bytes(esc), esc.size() != p.size());
  }
  // units: the escaped and the raw form parse to the same fields
  if (c.r.chance(0.15)) {
    Gen g(c.r);
    if (c.r.chance(0.5)) g.o.wild = 0.7;
    static const Kind ks[] = {K_VPS, K_SPS, K_PPS, K_SEI, K_SLICE};
    Kind k = ks[c.r.below(5)];
    PState a, d;
    if (k == K_SLICE) {
      for (Unit u : {g.make_vps(), g.make_sps(), g.make_pps()}) {
        H265NalUnitParser::ParseNalUnit(u.nal.data(), u.nal.size(), &a);
        H265NalUnitParser::ParseNalUnit(u.nal.data(), u.nal.size(), &d);
      }
    }
    Unit u = g.make(k);
    Bytes raw = ref_unescape(u.nal);
    c.note("unit", u.nal);
    Exact e(u.nal), f(raw);
    auto x = H265NalUnitParser::ParseNalUnit(e.p, e.n, &a, opts_all());
    auto y = H265NalUnitParser::ParseNalUnitUnescaped(f.p, f.n, &d, opts_all());
    if (!x || !y) c.violation("unit refused", "unit refused");
    else {
      std::string s = dump(*x, opts_all()), t = dump(*y, opts_all());
      if (s != t) c.violation("escaped and raw unit differ", fmt("escaped: %.600s\nraw: %.600s", s.c_str(), t.c_str()));
      std::string key, w = cmp_unit(u, x.get(), &key);
      if (!w.empty()) c.violation("escaped unit " + key, w);
    }
    if (dump_state(a) != dump_state(d)) c.violation("escaped and raw state differ", "parser states differ");
    c.eval(hash_bytes(u.nal), u.nal.size() != raw.size());
    c.count(u.nal.size() != raw.size() ? "units with escapes compared" : "units without escapes compared");
  }
}

VH_MODE(B04, 60000, 3000000, "one buffer examined at every bit position") {
  size_t n = c.r.below(6);
  Bytes b = c.r.bytes(n);
  if (n) {
    int how = (int)c.r.below(4);
    if (how == 0) b[n - 1] = (uint8_t)(1u << c.r.below(8));
    if (how == 1) b[n - 1] = (uint8_t)((c.cur / 8) & 0xff);   // every last byte
    if (how == 2) { BitW w; size_t k = c.r.below(8 * n); for (size_t i = 0; i < k; i++) w.bit((int)c.r.below(2)); w.trailing(); b = w.b; n = b.size(); }
  }
  c.note("bytes", b);
  Exact e(b);
  // the same bytes at the end of a much larger buffer of zeros
  size_t base = c.r.chance(0.03) ? wrap_size(c.r, SIZE_MAX) : 0;
  if (base) {
    c.note(fmt("bytes after %zu zero bytes", base).c_str(), b);
    c.count("buffers after many zero bytes");
    Sparse sp(base + n, b);
    for (int k = 0; k < 8; k++) {
      // somewhere before the bytes there is always more data unless only a stop bit follows
      size_t left = k < 4 ? wrap_size(c.r, base) + 8 * n : 8 * base - c.r.below(64) + 8 * n;
      if (left > (base + n) * 8) continue;
      size_t p = (base + n) * 8 - left;
      BitBuffer bb(sp.p, sp.n);
      if (!bb.Seek(p / 8, p % 8)) { c.violation("seek", "refused"); continue; }
      if (more_rbsp_data(&bb) != (left > 0)) c.violation("more_rbsp_data", fmt("%zu bits left, starting with zeros", left));
      if (pos_of(bb) != p) c.violation("more_rbsp_data position", "the query moved the position");
      if (byte_aligned(&bb) != (p % 8 == 0)) c.violation("byte_aligned", fmt("bit %zu", p));
      if (get_current_offset(&bb) != (p + 7) / 8) c.violation("get_current_offset", fmt("bit %zu: %zu", p, get_current_offset(&bb)));
      c.eval(mix(left, p));
    }
    size_t p = base * 8 + c.r.below(n * 8 + 1), left = (base + n) * 8 - p;
    BitBuffer bb(sp.p, sp.n);
    BitR rd(b, p - base * 8);
    bool one_then_zero = left > 0;
    for (size_t i = 0; i < left; i++) if (rd.bit() != (i == 0)) one_then_zero = false;
    if (!bb.Seek(p / 8, p % 8)) c.violation("seek", "refused");
    else if (!(one_then_zero && left > 8) && more_rbsp_data(&bb) != !(left == 0 || one_then_zero)) c.violation("more_rbsp_data", fmt("%zu bits left after %zu bytes", left, base));
    else if (pos_of(bb) != p || byte_aligned(&bb) != (p % 8 == 0) || get_current_offset(&bb) != (p + 7) / 8) c.violation("alignment query in a large buffer", fmt("bit %zu", p));
  }
  for (size_t p = 0; p <= n * 8; p++) {
    BitBuffer bb(e.p, e.n);
    if (!bb.Seek(p / 8, p % 8)) { c.violation("seek", "refused"); continue; }
    size_t left = n * 8 - p;
    BitR rd(b, p);
    bool one_then_zero = left > 0;
    for (size_t i = 0; i < left; i++) { int v = rd.bit(); if (v != (i == 0)) one_then_zero = false; }
    // (a stop bit followed by whole zero bytes is left open: it is not a payload the syntax allows here)
    bool open = one_then_zero && left > 8;
    bool want = !(left == 0 || one_then_zero);
    bool got = more_rbsp_data(&bb);
    if (!open && got != want) c.violation("more_rbsp_data", fmt("bit %zu of %s: %d, expected %d", p, hex(b).c_str(), got, want));
    if (pos_of(bb) != p) c.violation("more_rbsp_data position", "the query moved the position");
    c.count(want ? "more data" : left ? "only trailing bits" : "no bits");
    if (byte_aligned(&bb) != (p % 8 == 0)) c.violation("byte_aligned", fmt("bit %zu", p));
    if (get_current_offset(&bb) != (p + 7) / 8) c.violation("get_current_offset", fmt("bit %zu: %zu, expected %zu", p, get_current_offset(&bb), (p + 7) / 8));
    if (pos_of(bb) != p) c.violation("alignment query position", "the query moved the position");
    // trailing bits up to the next byte boundary
    bool ok = left > 0;
    if (ok) {
      BitR q(b, p);
      size_t m = 8 - p % 8;
      for (size_t i = 0; i < m; i++) if (q.bit() != (i == 0)) ok = false;
    }
    bool r = rbsp_trailing_bits(&bb);
    if (r != ok) c.violation("rbsp_trailing_bits", fmt("bit %zu of %s: %d, expected %d", p, hex(b).c_str(), r, ok));
    if (r && pos_of(bb) != (p / 8 + 1) * 8) c.violation("rbsp_trailing_bits position", fmt("position %zu", pos_of(bb)));
    c.count(ok ? "trailing bits accepted" : "trailing bits refused");
    c.eval(mix(hash_bytes(b), p));
  }
}
}  // namespace vh
