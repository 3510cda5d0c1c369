// Hostile inputs: syntax-aware, with values outside what the standard allows, cut, spliced and damaged.
#pragma once
#include "build.h"

namespace vh {

enum Struct { S_VPS, S_SPS, S_PPS, S_SLICE, S_SEI, S_AUD, S_PINFO, S_PTL, S_SUBHRD, S_HRD, S_VUI, S_STRPS, S_SLD, S_SPSRANGE, S_SPSMULTI, S_SPS3D,
              S_SPSSCC, S_PPSMULTI, S_PPSSCC, S_PWT, S_HVCC, S_COUNT };

struct Hostile {
  Rng& r;
  Gen g;                  // model of valid sets
  double level = 0.02;    // chance of a hostile value per element
  size_t budget = 12000;  // bits per structure
  long force_idx = -1;    // element of every structure to override ...
  int64_t force_val = 0;  // ... with this value, and end there
  size_t pad = 0;         // bytes put after every structure
  int pad_kind = 0;       // 0 ones, 1 zeros, 2 random, 3 mixed
  explicit Hostile(Rng& rng);
  void retune();
  // bits of one structure; |st| supplies the sets slices refer to
  Bytes structure(Struct s, const PState* st);
  Bytes payload(uint32_t nut, const PState* st);
  Bytes unit(const PState* st, bool escaped = true);   // header and payload
  Bytes noise();
  // a stream; |width| < 0: start codes, otherwise a length prefix of that many bytes
  Bytes stream(const PState* st, long* width);
  Bytes rtp(const PState* st);
  Bytes hvcc(const PState* st);
  // context numbers: mostly small, sometimes huge
  uint32_t arg(uint32_t soft);
  uint32_t nut();
};
std::string opt_text(uint32_t bits);
}  // namespace vh
