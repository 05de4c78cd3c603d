#include "google/protobuf/vfpb.h"
namespace vfpb {
bool exact = false;
bool (*parse_fault)(const char*) = nullptr;
void var(std::string* o, uint64_t v) {
  if (!exact && vf_is_sym(v)) { for (int i = 0; i < 9; i++) { o->push_back((char)(v | 0x80)); v >>= 7; } o->push_back((char)v); return; }
  while (v >= 0x80) { o->push_back((char)(v | 0x80)); v >>= 7; }
  o->push_back((char)v);
}
uint64_t In::var() {
  uint64_t r = 0;
  for (int i = 0; i < 10; i++) { if (p == e) { ok = false; return 0; } uint8_t b = *p++; r |= (uint64_t)(b & 0x7f) << (7 * i); if (!(b & 0x80)) return r; }
  ok = false; return 0;
}
In In::sub() { uint64_t n = var(); if (!ok || n > (uint64_t)(e - p)) { ok = false; return In{p, p, false}; } n = vf_concretize(n); In s{p, p + n}; p += n; return s; }
bool In::skip(uint32_t num, uint32_t wt, int depth) {
  if (!ok || num == 0) return ok = false;
  switch (wt) {
    case 0: var(); return ok;
    case 1: f64(); return ok;
    case 2: sub(); return ok;
    case 5: f32(); return ok;
    case 3: { if (depth > 4) return ok = false; for (;;) { if (!more()) return ok = false; uint64_t t = var(); if (!ok) return false; if ((t & 7) == 4) return ok = (t >> 3) == num; if (!skip((uint32_t)(t >> 3), t & 7, depth + 1)) return false; } }
    default: return ok = false;
  }
}
}
namespace google { namespace protobuf {
struct SimpleReflection : Reflection {
  void SetString(Message* m, const FieldDescriptor* f, std::string v) const override { *m->vf_strfield(f->n) = v; }
  std::string GetString(const Message& m, const FieldDescriptor* f) const override { return *const_cast<Message&>(m).vf_strfield(f->n); }
};
const Reflection* Message::GetReflection() const { static SimpleReflection r; return &r; }
bool MessageLite::ParseFromIstream(std::istream* is) { std::string all; char c; while (is->read(&c, 1)) all.push_back(c); return ParseFromString(all); }
}}
