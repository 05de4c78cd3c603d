// Checked integer and address conversions.
#include <cstdint>
#include "fcp/base/bounds.h"
#include "vf.h"
using namespace fcp;
template <class T> static bool fits(__int128 v) { return v >= (__int128)std::numeric_limits<T>::min() && v <= (__int128)std::numeric_limits<T>::max(); }
template <class To, class From> static void cast() {
  From from = (From)vf_u64("value"); To old = (To)vf_u64("before"), to = old;
  bool ok = TryCastInteger<To, From>(from, &to), want = fits<To>((__int128)from);
  vf_assert(ok == want, "a conversion succeeds exactly for representable values");
  if (ok) vf_assert((__int128)to == (__int128)from, "a conversion preserves the value"); else vf_assert(to == old, "a refused conversion leaves the target alone");
  if (!want) vf_allow_crash(1);
  To c = CastIntegerChecked<To, From>(from);
  vf_assert(want, "an unrepresentable value is never returned"); vf_assert((__int128)c == (__int128)from, "a checked conversion preserves the value");
  vf_reach("cast");
}
template <class From> static void from() {
  switch (vf_choice(8, "target")) {
    case 0: return cast<int8_t, From>(); case 1: return cast<uint8_t, From>(); case 2: return cast<int16_t, From>(); case 3: return cast<uint16_t, From>();
    case 4: return cast<int32_t, From>(); case 5: return cast<uint32_t, From>(); case 6: return cast<int64_t, From>(); default: return cast<uint64_t, From>();
  }
}
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0);
  if (mode == 0) {
    switch (vf_choice(8, "source")) {
      case 0: return from<int8_t>(); case 1: return from<uint8_t>(); case 2: return from<int16_t>(); case 3: return from<uint16_t>();
      case 4: return from<int32_t>(); case 5: return from<uint32_t>(); case 6: return from<int64_t>(); default: return from<uint64_t>();
    }
  } else if (mode == 1) {  // address mapping
    uint64_t start = vf_u64("start"), size = vf_u64("size"), ptr = vf_u64("pointer"); uint32_t esize = vf_u32("element size"), count = vf_u32("count");
    bool wraps = (unsigned __int128)start + size > (unsigned __int128)~0ull;
    if (wraps) vf_allow_crash(1);
    AddressSpace space = AddressSpace::Embedded(reinterpret_cast<void*>(start), size);
    vf_assert(!wraps, "an address space never wraps around");
    vf_assert(reinterpret_cast<uint64_t>(space.start) == start && space.size == size, "an address space is what was asked for");
    uint64_t bytes = SafeMultiply(esize, count);
    if (vf_param("mul", 0)) vf_assert((unsigned __int128)bytes == (unsigned __int128)esize * count, "the product is exact");
    void* got = MapOutOfAddressSpace(space, ForeignPointer{ptr}, esize, count);
    bool in = (unsigned __int128)ptr + bytes <= (unsigned __int128)size;
    if (in) vf_assert(reinterpret_cast<uint64_t>(got) == start + ptr, "a range inside the space maps to its address");
    else vf_assert(got == nullptr, "a range outside the space is refused");
    vf_reach("map");
  } else if (mode == 2) {  // whole address space
    AddressSpace cur = AddressSpace::Current(); uint64_t ptr = vf_u64("pointer"); uint32_t esize = vf_u32("element size"), count = vf_u32("count");
    void* got = MapOutOfAddressSpace(cur, ForeignPointer{ptr}, esize, count);
    bool in = (unsigned __int128)ptr + (unsigned __int128)esize * count <= (unsigned __int128)~0ull;
    vf_assert(reinterpret_cast<uint64_t>(got) == (in ? ptr : 0), "the native space maps every range to itself");
    vf_reach("map");
  } else {
    uint32_t a = vf_u32("a"), b = vf_u32("b"); uint64_t p = SafeMultiply(a, b);
    vf_assert((unsigned __int128)p == (unsigned __int128)a * b, "the product is exact");
    vf_reach("map");
  }
}
