// Number formatting shared by streams and string functions.
#pragma once
#include <string>
#include <type_traits>
#include <cstring>
#include "vf.h"
namespace vfabsl {
inline std::string udec(unsigned long long v) {
  char b[24]; int i = 24;
  do { b[--i] = char('0' + v % 10); v /= 10; } while (v);
  return std::string(b + i, 24 - i);
}
// A symbolic number is written as a fixed-width injective code unless exact digits were asked for.
inline std::string symcode(unsigned long long v) {
  std::string r("#"); for (int i = 15; i >= 0; i--) r.push_back(char(0x40 | ((v >> (4 * i)) & 15))); return r;
}
inline std::string fmtU(unsigned long long v) {
  if (vf_is_sym(v)) { if (!vf::exact_numbers) return symcode(v); v = vf_concretize(v); }
  return udec(v);
}
inline std::string fmtI(long long v) {
  if (vf_is_sym((uint64_t)v)) { if (!vf::exact_numbers) return symcode((unsigned long long)v); v = (long long)vf_concretize((uint64_t)v); }
  if (v < 0) return "-" + udec(0ULL - (unsigned long long)v);
  return udec((unsigned long long)v);
}
inline std::string fmtX(unsigned long long v, bool upper, int width = 0, char fill = '0') {
  if (vf_is_sym(v) && !vf::exact_numbers) {
    // hexadecimal of a symbolic value: fixed 16 digits would change the text, so concretise small fields
    if (width == 2 && v < 256) {  // common byte formatting: build both digits symbolically
      auto dig = [&](unsigned d) { return (char)vf_ite(d < 10, '0' + d, (upper ? 'A' : 'a') + d - 10); };
      std::string r; r.push_back(dig((unsigned)(v >> 4) & 15)); r.push_back(dig((unsigned)v & 15)); return r;
    }
    v = vf_concretize(v);
  } else if (vf_is_sym(v)) v = vf_concretize(v);
  std::string r; const char* d = upper ? "0123456789ABCDEF" : "0123456789abcdef";
  do { r.insert(r.begin(), d[v & 15]); v >>= 4; } while (v);
  while ((int)r.size() < width) r.insert(r.begin(), fill);
  return r;
}
inline std::string fmtD(double d) {  // enough for messages; exact for integers
  if (d != d) return "nan";
  uint64_t bits; memcpy(&bits, &d, 8); if (vf_is_sym(bits)) return symcode(bits);
  if (d < 0) return "-" + fmtD(-d);
  if (d > 1e18) return "inf";
  unsigned long long ip = (unsigned long long)d; double fr = d - (double)ip; std::string r = udec(ip);
  if (fr > 0) { r += "."; for (int i = 0; i < 6 && fr > 0; i++) { fr *= 10; int k = (int)fr; r.push_back(char('0' + k)); fr -= k; } }
  return r;
}
}  // namespace vfabsl
