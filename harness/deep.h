// Complete listing of a result: every public data member of every reachable structure, whether dumped or not.
#pragma once
#include "build.h"

namespace vh {
std::string deep(const Stream& s);
std::string deep(const Nal& s);
std::string deep(const NalPayload& s);
std::string deep(const PState& s);
std::string deep(const Box& s);
std::string deep(const H265RtpParser::RtpState& s);
std::string deep(const Vps& s);
std::string deep(const Sps& s);
std::string deep(const Pps& s);
std::string deep(const Slice& s);
std::string deep(const Sei& s);
size_t deep_fields();   // number of members known
// first difference of two listings; |key| gets the member's name
std::string deep_diff(const std::string& a, const std::string& b, std::string* key);
}  // namespace vh
