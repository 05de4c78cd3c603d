#pragma once
#include "cppbor.h"
namespace cppbor {
using ParseResult = std::tuple<std::unique_ptr<Item>, const uint8_t*, std::string>;
struct VfParse {
  const uint8_t* p; const uint8_t* end; bool bad = false;
  std::unique_ptr<Item> fail() { bad = true; return nullptr; }
  std::unique_ptr<Item> item(int depth) {
    if (p >= end || depth > 8) return fail();
    uint8_t h = *p++; uint8_t t = h & 0xe0, a = h & 0x1f; uint64_t v = a;
    if (a >= 28) return fail();
    if (a >= 24) { int n = a == 24 ? 1 : a == 25 ? 2 : a == 26 ? 4 : 8; if (end - p < n) return fail(); v = 0; for (int i = 0; i < n; i++) v = v << 8 | *p++; }
    switch (t) {
      case UINT: return std::make_unique<Uint>(v);
      case NINT: if (v >> 63) return fail(); return std::make_unique<Nint>(-1 - (int64_t)v);
      case BSTR: { if (v > (uint64_t)(end - p)) return fail(); auto r = std::make_unique<Bstr>(std::vector<uint8_t>(p, p + v)); p += v; return r; }
      case TSTR: { if (v > (uint64_t)(end - p)) return fail(); auto r = std::make_unique<Tstr>(std::string((const char*)p, v)); p += v; return r; }
      case ARRAY: { auto r = std::make_unique<Array>(); for (uint64_t i = 0; i < v; i++) { auto x = item(depth + 1); if (bad) return nullptr; r->add(std::move(x)); } return r; }
      case MAP: { auto r = std::make_unique<Map>(); for (uint64_t i = 0; i < v; i++) { auto k = item(depth + 1); if (bad) return nullptr; auto x = item(depth + 1); if (bad) return nullptr; r->add(std::move(k), std::move(x)); } return r; }
      case SIMPLE: if (a < 20 || a > 22) return fail(); return std::make_unique<Simple>(a);
      default: return fail();
    }
  }
};
inline ParseResult parse(const uint8_t* b, const uint8_t* e) { VfParse x{b, e}; auto i = x.item(0); if (x.bad) return ParseResult(nullptr, b, "malformed"); return ParseResult(std::move(i), x.p, ""); }
inline ParseResult parse(const uint8_t* b, size_t n) { return parse(b, b + n); }
inline ParseResult parse(const std::vector<uint8_t>& v) { return parse(v.data(), v.size()); }
inline ParseResult parse(const Bstr* s) { return s ? parse(s->value()) : ParseResult(nullptr, nullptr, "null"); }
}
