#pragma once
#include <map>
#include <set>
#include <unordered_map>
#include <limits>
#include <array>
#include "vfabsl/base.h"
#include "vfabsl/numfmt.h"
#include "vfabsl/ios.h"
namespace absl {
enum PadSpec : uint8_t { kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8, kZeroPad9, kZeroPad10, kZeroPad11, kZeroPad12, kZeroPad13, kZeroPad14, kZeroPad15, kZeroPad16 };
struct Hex { unsigned long long v; int w; char f; Hex(unsigned long long x, int width, char fill) : v(x), w(width), f(fill) {} template <class I> explicit Hex(I x, PadSpec p = kNoPad) : v((unsigned long long)(std::make_unsigned_t<I>)x), w(p == kNoPad ? 1 : (int)p), f('0') {} };
class AlphaNum {
 public:
  AlphaNum(int v) : s_(vfabsl::fmtI(v)) {} AlphaNum(unsigned v) : s_(vfabsl::fmtU(v)) {} AlphaNum(long v) : s_(vfabsl::fmtI(v)) {} AlphaNum(unsigned long v) : s_(vfabsl::fmtU(v)) {}
  AlphaNum(long long v) : s_(vfabsl::fmtI(v)) {} AlphaNum(unsigned long long v) : s_(vfabsl::fmtU(v)) {} AlphaNum(short v) : s_(vfabsl::fmtI(v)) {} AlphaNum(unsigned short v) : s_(vfabsl::fmtU(v)) {}
  AlphaNum(bool v) : s_(v ? "1" : "0") {} AlphaNum(double v) : s_(vfabsl::fmtD(v)) {} AlphaNum(float v) : s_(vfabsl::fmtD(v)) {}
  AlphaNum(signed char v) : s_(vfabsl::fmtI(v)) {} AlphaNum(unsigned char v) : s_(vfabsl::fmtU(v)) {}
  AlphaNum(const char* s) : s_(s ? s : "") {} AlphaNum(const std::string& s) : s_(s) {} AlphaNum(string_view s) : s_(s) {}
  AlphaNum(const Hex& h) : s_(vfabsl::fmtX(h.v, false, h.w, h.f)) {}
  template <class E, class = std::enable_if_t<std::is_enum<E>::value>, class = void> AlphaNum(E e) : s_(vfabsl::fmtI((long long)e)) {}
  AlphaNum(char) = delete;
  string_view Piece() const { return s_; } size_t size() const { return s_.size(); }
  std::string s_;
};
template <class... A> std::string StrCat(const A&... a) { std::string r; (void)std::initializer_list<int>{(r += AlphaNum(a).s_, 0)...}; return r; }
template <class... A> void StrAppend(std::string* d, const A&... a) { (void)std::initializer_list<int>{(*d += AlphaNum(a).s_, 0)...}; }

inline bool ascii_isascii(unsigned char c) { return c < 128; }
inline bool ascii_isdigit(unsigned char c) { return (unsigned)(c - '0') < 10u; }
inline bool ascii_isupper(unsigned char c) { return (unsigned)(c - 'A') < 26u; }
inline bool ascii_islower(unsigned char c) { return (unsigned)(c - 'a') < 26u; }
inline bool ascii_isalpha(unsigned char c) { return (unsigned)((c | 32) - 'a') < 26u; }
inline bool ascii_isalnum(unsigned char c) { return bool(ascii_isalpha(c) | ascii_isdigit(c)); }
inline bool ascii_isspace(unsigned char c) { return bool((c == ' ') | ((unsigned)(c - 9) < 5u)); }
inline bool ascii_isxdigit(unsigned char c) { return bool(ascii_isdigit(c) | ((unsigned)((c | 32) - 'a') < 6u)); }
inline bool ascii_isprint(unsigned char c) { return (unsigned)(c - 32) < 95u; }
inline bool ascii_ispunct(unsigned char c) { return ascii_isprint(c) && !ascii_isalnum(c) && c != ' '; }
inline bool ascii_iscntrl(unsigned char c) { return c < 32 || c == 127; }
inline char ascii_tolower(unsigned char c) { return (char)(c + (ascii_isupper(c) ? 32 : 0)); }
inline char ascii_toupper(unsigned char c) { return (char)(c - (ascii_islower(c) ? 32 : 0)); }
inline void AsciiStrToLower(std::string* s) { for (auto& c : *s) c = ascii_tolower(c); }
inline void AsciiStrToUpper(std::string* s) { for (auto& c : *s) c = ascii_toupper(c); }
inline std::string AsciiStrToLower(string_view s) { std::string r(s); AsciiStrToLower(&r); return r; }
inline std::string AsciiStrToUpper(string_view s) { std::string r(s); AsciiStrToUpper(&r); return r; }
inline string_view StripLeadingAsciiWhitespace(string_view s) { while (!s.empty() && ascii_isspace(s.front())) s.remove_prefix(1); return s; }
inline string_view StripTrailingAsciiWhitespace(string_view s) { while (!s.empty() && ascii_isspace(s.back())) s.remove_suffix(1); return s; }
inline string_view StripAsciiWhitespace(string_view s) { return StripTrailingAsciiWhitespace(StripLeadingAsciiWhitespace(s)); }
inline void StripAsciiWhitespace(std::string* s) { *s = std::string(StripAsciiWhitespace(string_view(*s))); }
inline void StripLeadingAsciiWhitespace(std::string* s) { *s = std::string(StripLeadingAsciiWhitespace(string_view(*s))); }
inline void StripTrailingAsciiWhitespace(std::string* s) { *s = std::string(StripTrailingAsciiWhitespace(string_view(*s))); }

inline bool StartsWith(string_view s, string_view p) { return p.empty() || (s.size() >= p.size() && __builtin_memcmp(s.data(), p.data(), p.size()) == 0); }
inline bool EndsWith(string_view s, string_view p) { return p.empty() || (s.size() >= p.size() && __builtin_memcmp(s.data() + s.size() - p.size(), p.data(), p.size()) == 0); }
inline bool StrContains(string_view h, string_view n) { return h.find(n) != string_view::npos; }
inline bool StrContains(string_view h, char n) { return h.find(n) != string_view::npos; }
inline bool EqualsIgnoreCase(string_view a, string_view b) { if (a.size() != b.size()) return false; unsigned d = 0; for (size_t i = 0; i < a.size(); i++) d |= (unsigned char)(ascii_tolower(a[i]) ^ ascii_tolower(b[i])); return d == 0; }
inline bool StartsWithIgnoreCase(string_view s, string_view p) { return s.size() >= p.size() && EqualsIgnoreCase(s.substr(0, p.size()), p); }
inline bool EndsWithIgnoreCase(string_view s, string_view p) { return s.size() >= p.size() && EqualsIgnoreCase(s.substr(s.size() - p.size()), p); }
inline bool ConsumePrefix(string_view* s, string_view p) { if (!StartsWith(*s, p)) return false; s->remove_prefix(p.size()); return true; }
inline bool ConsumeSuffix(string_view* s, string_view p) { if (!EndsWith(*s, p)) return false; s->remove_suffix(p.size()); return true; }
inline string_view StripPrefix(string_view s, string_view p) { if (StartsWith(s, p)) s.remove_prefix(p.size()); return s; }
inline string_view StripSuffix(string_view s, string_view p) { if (EndsWith(s, p)) s.remove_suffix(p.size()); return s; }

// Same acceptance as safe_strtou64/safe_strto64 base 10: surrounding whitespace, optional sign, digits, range check.
template <class Int> bool SimpleAtoi(string_view s, Int* out) {
  s = StripAsciiWhitespace(s); bool neg = false;
  *out = 0;
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; s.remove_prefix(1); }
  if (s.empty()) return false;
  if (neg && !std::is_signed<Int>::value) return false;
  unsigned __int128 v = 0; unsigned __int128 lim = neg ? (unsigned __int128)std::numeric_limits<Int>::max() + 1 : (unsigned __int128)std::numeric_limits<Int>::max();
  for (char c : s) { if (!ascii_isdigit(c)) { return false; } v = v * 10 + (unsigned)(c - '0'); if (v > lim) { *out = neg ? std::numeric_limits<Int>::min() : std::numeric_limits<Int>::max(); return false; } }
  *out = neg ? (Int)(0 - (unsigned long long)v) : (Int)(unsigned long long)v; return true;
}
inline bool SimpleAtob(string_view s, bool* out) { if (EqualsIgnoreCase(s, "true") || EqualsIgnoreCase(s, "t") || EqualsIgnoreCase(s, "yes") || EqualsIgnoreCase(s, "y") || s == "1") { *out = true; return true; } if (EqualsIgnoreCase(s, "false") || EqualsIgnoreCase(s, "f") || EqualsIgnoreCase(s, "no") || EqualsIgnoreCase(s, "n") || s == "0") { *out = false; return true; } return false; }
inline bool SimpleHexAtoi64(string_view s, uint64_t* out) { if (StartsWithIgnoreCase(s, "0x")) s.remove_prefix(2); if (s.empty()) return false; uint64_t v = 0; for (char c : s) { if (!ascii_isxdigit(c) || (v >> 60)) return false; v = v * 16 + (ascii_isdigit(c) ? c - '0' : (c | 32) - 'a' + 10); } *out = v; return true; }
template <class Int> bool SimpleHexAtoi(string_view s, Int* out) { uint64_t v; if (!SimpleHexAtoi64(s, &v) || v > (uint64_t)std::numeric_limits<Int>::max()) return false; *out = (Int)v; return true; }

// ---- splitting
struct ByChar { char c; size_t find(string_view s, size_t& n) const { n = 1; return s.find(c); } ByChar(char x) : c(x) {} };
struct ByString { std::string d; ByString(string_view x) : d(x) {} size_t find(string_view s, size_t& n) const { n = d.size(); if (d.empty() && s.size() > 1) { n = 0; return 1; } return d.empty() ? string_view::npos : s.find(d); } };
struct ByAnyChar { std::string d; ByAnyChar(string_view x) : d(x) {} size_t find(string_view s, size_t& n) const { n = 1; for (size_t i = 0; i < s.size(); i++) if (d.find(s[i]) != std::string::npos) return i; return string_view::npos; } };
struct ByLength { size_t k; ByLength(ptrdiff_t n) : k((size_t)n) {} size_t find(string_view s, size_t& n) const { n = 0; return s.size() > k ? k : string_view::npos; } };
template <class D> struct MaxSplitsImpl { D d; int max; mutable int used = 0; MaxSplitsImpl(D x, int m) : d(std::move(x)), max(m) {} size_t find(string_view s, size_t& n) const { if (used >= max) return string_view::npos; size_t r = d.find(s, n); if (r != string_view::npos) used++; return r; } };
inline ByChar vf_delim(char c) { return ByChar(c); } inline ByString vf_delim(const char* s) { return ByString(s); } inline ByString vf_delim(const std::string& s) { return ByString(s); } inline ByString vf_delim(string_view s) { return ByString(s); }
template <class D> D vf_delim(D d) { return d; }
template <class D> auto MaxSplits(D d, int n) { return MaxSplitsImpl<decltype(vf_delim(d))>(vf_delim(d), n); }
struct AllowEmpty { bool operator()(string_view) const { return true; } };
struct SkipEmpty { bool operator()(string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(string_view s) const { return !StripAsciiWhitespace(s).empty(); } };
class VfSplitter {
 public:
  std::shared_ptr<std::string> own; std::vector<string_view> v;
  auto begin() const { return v.begin(); } auto end() const { return v.end(); }
  template <class C, class T = typename C::value_type, class = decltype(std::declval<C&>().insert(std::declval<C&>().end(), std::declval<T>()))> operator C() const { C c; for (auto s : v) c.insert(c.end(), T(s)); return c; }
  template <class A, class B> operator std::pair<A, B>() const { return std::pair<A, B>(v.size() > 0 ? A(v[0]) : A(), v.size() > 1 ? B(v[1]) : B()); }
  template <class T, size_t N> operator std::array<T, N>() const { std::array<T, N> a; for (size_t i = 0; i < N && i < v.size(); i++) a[i] = T(v[i]); return a; }
};
template <class D, class P> VfSplitter vf_split(string_view s, std::shared_ptr<std::string> own, D d, P p) {
  VfSplitter r; r.own = own;
  for (;;) { size_t n = 0; size_t k = d.find(s, n); string_view piece = s.substr(0, k); if (p(piece)) r.v.push_back(piece); if (k == string_view::npos) break; s.remove_prefix(k + n); }
  return r;
}
template <class D> VfSplitter StrSplit(string_view s, D d) { return vf_split(s, nullptr, vf_delim(d), AllowEmpty()); }
template <class D, class P> VfSplitter StrSplit(string_view s, D d, P p) { return vf_split(s, nullptr, vf_delim(d), p); }
inline VfSplitter vf_splitown(std::string&& t, char d) { auto o = std::make_shared<std::string>(std::move(t)); return vf_split(*o, o, vf_delim(d), AllowEmpty()); }

// ---- joining
struct AlphaNumFormatterImpl { template <class T> void operator()(std::string* o, const T& t) const { StrAppend(o, AlphaNum(t).s_); } };
inline AlphaNumFormatterImpl AlphaNumFormatter() { return {}; }
struct StreamFormatterImpl { template <class T> void operator()(std::string* o, const T& t) const { std::ostringstream s; s << t; *o += s.str(); } };
inline StreamFormatterImpl StreamFormatter() { return {}; }
template <class F1, class F2> struct PairFormatterImpl { F1 f; std::string sep; F2 g; template <class T> void operator()(std::string* o, const T& p) { f(o, p.first); *o += sep; g(o, p.second); } };
template <class F1, class F2> PairFormatterImpl<F1, F2> PairFormatter(F1 f, string_view s, F2 g) { return {f, std::string(s), g}; }
inline PairFormatterImpl<AlphaNumFormatterImpl, AlphaNumFormatterImpl> PairFormatter(string_view s) { return {{}, std::string(s), {}}; }
template <class It, class F> std::string vf_join(It b, It e, string_view sep, F f) { std::string r; bool first = true; for (; b != e; ++b) { if (!first) r += sep; first = false; f(&r, *b); } return r; }
template <class C, class F> std::string StrJoin(const C& c, string_view sep, F f) { return vf_join(std::begin(c), std::end(c), sep, f); }
template <class C> std::string StrJoin(const C& c, string_view sep) { return vf_join(std::begin(c), std::end(c), sep, AlphaNumFormatter()); }
template <class It, class = typename std::iterator_traits<It>::value_type> std::string StrJoin(It b, It e, string_view sep) { return vf_join(b, e, sep, AlphaNumFormatter()); }
template <class It, class F, class = typename std::iterator_traits<It>::value_type> std::string StrJoin(It b, It e, string_view sep, F f) { return vf_join(b, e, sep, f); }

inline int StrReplaceAll(std::initializer_list<std::pair<string_view, string_view>> rep, std::string* t) {
  std::string r; int n = 0; size_t i = 0;
  while (i < t->size()) { const std::pair<string_view, string_view>* best = nullptr; for (auto& p : rep) if (!p.first.empty() && t->size() - i >= p.first.size() && __builtin_memcmp(t->data() + i, p.first.data(), p.first.size()) == 0 && (!best || p.first.size() > best->first.size())) best = &p; if (best) { r += best->second; i += best->first.size(); n++; } else r.push_back((*t)[i++]); }
  *t = r; return n;
}
inline std::string StrReplaceAll(string_view s, std::initializer_list<std::pair<string_view, string_view>> rep) { std::string t(s); StrReplaceAll(rep, &t); return t; }
template <class C> std::string StrReplaceAll(string_view s, const C& rep) {
  std::string t(s), r; size_t i = 0;
  while (i < t.size()) { std::string bf, bt; bool hit = false; for (auto& p : rep) { string_view f(std::get<0>(p)); if (!f.empty() && t.size() - i >= f.size() && __builtin_memcmp(t.data() + i, f.data(), f.size()) == 0 && (!hit || f.size() > bf.size())) { hit = true; bf = std::string(f); bt = std::string(string_view(std::get<1>(p))); } } if (hit) { r += bt; i += bf.size(); } else r.push_back(t[i++]); }
  return r;
}

// ---- substitution and formatting
namespace substitute_internal { struct Arg { std::string s; template <class T> Arg(const T& t) : s(AlphaNum(t).s_) {} Arg(char c) : s(1, c) {} Arg(bool b) : s(b ? "true" : "false") {} Arg(const void* p) : s(vfabsl::fmtX((uint64_t)p, false)) {} Arg(const char* p) : s(p ? p : "NULL") {} }; }
inline std::string vf_subst(string_view f, const std::string* const* a, size_t n) { std::string r; for (size_t i = 0; i < f.size(); i++) { if (f[i] == '$' && i + 1 < f.size()) { char c = f[i + 1]; if (ascii_isdigit(c)) { size_t k = c - '0'; if (k < n) r += *a[k]; i++; continue; } if (c == '$') { r.push_back('$'); i++; continue; } } r.push_back(f[i]); } return r; }
template <class... A> std::string Substitute(string_view f, const A&... a) { std::vector<std::string> v{substitute_internal::Arg(a).s...}; const std::string* p[sizeof...(A) + 1]; for (size_t i = 0; i < v.size(); i++) p[i] = &v[i]; return vf_subst(f, p, v.size()); }
template <class... A> void SubstituteAndAppend(std::string* o, string_view f, const A&... a) { *o += Substitute(f, a...); }

struct VfFmtArg {
  int k; long long i = 0; double d = 0; std::string s;
  template <class T, std::enable_if_t<std::is_integral<T>::value && std::is_signed<T>::value, int> = 0> VfFmtArg(T v) : k(0), i(v) { if (sizeof(T) == 1) s = std::string(1, (char)v); }
  template <class T, std::enable_if_t<std::is_integral<T>::value && !std::is_signed<T>::value, int> = 0> VfFmtArg(T v) : k(1), i((long long)v) { if (sizeof(T) == 1) s = std::string(1, (char)v); }
  template <class T, std::enable_if_t<std::is_enum<T>::value, int> = 0> VfFmtArg(T v) : k(0), i((long long)v) {}
  VfFmtArg(double v) : k(2), d(v) {} VfFmtArg(float v) : k(2), d(v) {}
  VfFmtArg(const char* v) : k(3), s(v) {} VfFmtArg(const std::string& v) : k(3), s(v) {} VfFmtArg(string_view v) : k(3), s(v) {} VfFmtArg(const void* p) : k(1), i((long long)p) {}
};
inline std::string vf_format(string_view f, const std::vector<VfFmtArg>& a) {
  std::string r; size_t n = 0;
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { r.push_back(f[i]); continue; }
    i++; if (i >= f.size()) break; if (f[i] == '%') { r.push_back('%'); continue; }
    bool zero = false, left = false; while (i < f.size() && (f[i] == '0' || f[i] == '-' || f[i] == '+' || f[i] == '#' || f[i] == ' ')) { if (f[i] == '0') zero = true; if (f[i] == '-') left = true; i++; }
    int w = 0; while (i < f.size() && ascii_isdigit(f[i])) w = w * 10 + (f[i++] - '0');
    if (i < f.size() && f[i] == '.') { i++; while (i < f.size() && (ascii_isdigit(f[i]) || f[i] == '*')) { if (f[i] == '*') n++; i++; } }
    while (i < f.size() && (f[i] == 'l' || f[i] == 'h' || f[i] == 'z' || f[i] == 'j')) i++;
    if (i >= f.size() || n >= a.size()) abort();
    const VfFmtArg& x = a[n++]; std::string s;
    switch (f[i]) {
      case 'd': case 'i': case 'u': s = x.k == 1 || f[i] == 'u' ? vfabsl::fmtU((unsigned long long)x.i) : vfabsl::fmtI(x.i); break;
      case 'x': case 'X': case 'p': s = vfabsl::fmtX((unsigned long long)x.i, f[i] == 'X', zero ? w : 0); break;
      case 'c': s = std::string(1, (char)x.i); break;
      case 's': case 'v': s = x.k == 3 ? x.s : x.k == 2 ? vfabsl::fmtD(x.d) : x.k == 1 ? vfabsl::fmtU((unsigned long long)x.i) : vfabsl::fmtI(x.i); break;
      default: s = x.k == 2 ? vfabsl::fmtD(x.d) : vfabsl::fmtI(x.i);
    }
    if ((int)s.size() < w) { if (left) s.append(w - s.size(), ' '); else s.insert(0, std::string(w - s.size(), zero ? '0' : ' ')); }
    r += s;
  }
  return r;
}
template <class... A> std::string StrFormat(string_view f, const A&... a) { return vf_format(f, std::vector<VfFmtArg>{VfFmtArg(a)...}); }
template <class... A> std::string& StrAppendFormat(std::string* o, string_view f, const A&... a) { *o += StrFormat(f, a...); return *o; }
template <class... A> std::string StreamFormat(string_view f, const A&... a) { return StrFormat(f, a...); }

// ---- escaping
inline char vf_hexd(unsigned d) { return (char)vf_ite(d < 10, '0' + d, 'a' + d - 10); }
inline std::string BytesToHexString(string_view s) { std::string r; for (unsigned char c : s) { r.push_back(vf_hexd(c >> 4)); r.push_back(vf_hexd(c & 15)); } return r; }
inline int vf_hexv(char c) { return ascii_isdigit(c) ? c - '0' : (c | 32) - 'a' + 10; }
inline std::string HexStringToBytes(string_view s) { std::string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((char)(vf_hexv(s[i]) * 16 + vf_hexv(s[i + 1]))); return r; }
inline bool HexStringToBytes(string_view s, std::string* o) { o->clear(); if (s.size() % 2) return false; for (char c : s) if (!ascii_isxdigit(c)) return false; *o = HexStringToBytes(s); return true; }
inline char vf_b64(unsigned v, bool web) { return (char)vf_ite(v < 26, 'A' + v, vf_ite(v < 52, 'a' + v - 26, vf_ite(v < 62, '0' + v - 52, vf_ite(v == 62, web ? '-' : '+', web ? '_' : '/')))); }
inline std::string vf_b64enc(string_view s, bool web, bool pad) {
  std::string r; size_t i = 0; auto B = [&](size_t k) { return (unsigned)(unsigned char)s[k]; };
  for (; i + 2 < s.size(); i += 3) { unsigned v = B(i) << 16 | B(i + 1) << 8 | B(i + 2); r.push_back(vf_b64(v >> 18, web)); r.push_back(vf_b64((v >> 12) & 63, web)); r.push_back(vf_b64((v >> 6) & 63, web)); r.push_back(vf_b64(v & 63, web)); }
  if (s.size() - i == 1) { unsigned v = B(i) << 16; r.push_back(vf_b64(v >> 18, web)); r.push_back(vf_b64((v >> 12) & 63, web)); if (pad) r += "=="; }
  else if (s.size() - i == 2) { unsigned v = B(i) << 16 | B(i + 1) << 8; r.push_back(vf_b64(v >> 18, web)); r.push_back(vf_b64((v >> 12) & 63, web)); r.push_back(vf_b64((v >> 6) & 63, web)); if (pad) r += "="; }
  return r;
}
inline bool vf_b64dec(string_view s, std::string* o, bool web) {
  std::string r; unsigned acc = 0; int bits = 0; size_t n = 0, pads = 0;
  for (char c : s) { if (ascii_isspace(c)) continue; if (c == '=' || c == '.') { pads++; continue; } if (pads) { o->clear(); return false; } int v; if (ascii_isupper(c)) v = c - 'A'; else if (ascii_islower(c)) v = c - 'a' + 26; else if (ascii_isdigit(c)) v = c - '0' + 52; else if (c == (web ? '-' : '+')) v = 62; else if (c == (web ? '_' : '/')) v = 63; else { o->clear(); return false; }
    acc = (acc << 6) | v; bits += 6; n++; if (bits >= 8) { bits -= 8; r.push_back((char)(acc >> bits)); acc &= (1u << bits) - 1; } }
  if (n % 4 == 1 || acc != 0 || (pads && (n + pads) % 4 != 0) || pads > 2) { o->clear(); return false; }
  *o = r; return true;
}
inline std::string Base64Escape(string_view s) { return vf_b64enc(s, false, true); }
inline void Base64Escape(string_view s, std::string* o) { *o = vf_b64enc(s, false, true); }
inline std::string WebSafeBase64Escape(string_view s) { return vf_b64enc(s, true, false); }
inline bool Base64Unescape(string_view s, std::string* o) { return vf_b64dec(s, o, false); }
inline bool WebSafeBase64Unescape(string_view s, std::string* o) { return vf_b64dec(s, o, true); }
inline std::string CEscape(string_view s) { std::string r; for (unsigned char c : s) { if (ascii_isprint(c) && c != '"' && c != '\\' && c != '\'') r.push_back((char)c); else { r.push_back('\\'); r.push_back(char('0' + (c >> 6))); r.push_back(char('0' + ((c >> 3) & 7))); r.push_back(char('0' + (c & 7))); } } return r; }
inline std::string CHexEscape(string_view s) { return CEscape(s); }
inline std::string Utf8SafeCEscape(string_view s) { return CEscape(s); }

class Cord {
 public:
  Cord() {} Cord(string_view s) : s_(s) {} Cord(const char* s) : s_(s) {} explicit Cord(const std::string& s) : s_(s) {} explicit Cord(std::string&& s) : s_(std::move(s)) {}
  Cord& operator=(string_view s) { s_ = std::string(s); return *this; }
  Cord(const Cord&) = default; Cord(Cord&&) = default; Cord& operator=(const Cord&) = default; Cord& operator=(Cord&&) = default;
  size_t size() const { return s_.size(); } bool empty() const { return s_.empty(); } void Clear() { s_.clear(); }
  void Append(string_view s) { s_ += s; } void Append(const Cord& c) { s_ += c.s_; } void Append(const char* s) { s_ += s; } void Append(std::string&& s) { s_ += s; } void Prepend(string_view s) { s_.insert(0, s); } void Prepend(const Cord& c) { s_.insert(0, c.s_); }
  void RemovePrefix(size_t n) { if (n > s_.size()) abort(); s_.erase(0, n); } void RemoveSuffix(size_t n) { if (n > s_.size()) abort(); s_.resize(s_.size() - n); }
  Cord Subcord(size_t p, size_t n) const { if (p > s_.size()) p = s_.size(); return Cord(s_.substr(p, n)); }
  explicit operator std::string() const { return s_; } string_view Flatten() { return s_; } optional<string_view> TryFlat() const { return string_view(s_); }
  char operator[](size_t i) const { return s_[i]; } bool StartsWith(string_view p) const { return absl::StartsWith(s_, p); } bool EndsWith(string_view p) const { return absl::EndsWith(s_, p); }
  std::vector<string_view> Chunks() const { std::vector<string_view> v; if (!s_.empty()) v.push_back(s_); return v; }
  const std::string& Chars() const { return s_; }
  int Compare(string_view o) const { return s_.compare(o); }
  friend bool operator==(const Cord& a, const Cord& b) { return a.s_ == b.s_; } friend bool operator!=(const Cord& a, const Cord& b) { return a.s_ != b.s_; }
  friend bool operator==(const Cord& a, string_view b) { return a.s_ == b; } friend bool operator==(string_view b, const Cord& a) { return a.s_ == b; } friend bool operator!=(const Cord& a, string_view b) { return a.s_ != b; }
  friend bool operator<(const Cord& a, const Cord& b) { return a.s_ < b.s_; }
  friend std::ostream& operator<<(std::ostream& o, const Cord& c) { return o << c.s_; }
  const std::string& vf_str() const { return s_; }
 private: std::string s_;
};
inline void CopyCordToString(const Cord& c, std::string* d) { *d = std::string(c); }
inline void AppendCordToString(const Cord& c, std::string* d) { *d += std::string(c); }
template <class F> Cord MakeCordFromExternal(string_view s, F&& f) { Cord c(s); f(); return c; }
}  // namespace absl
