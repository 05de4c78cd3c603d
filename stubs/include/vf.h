// Interface between harnesses and the symbolic executor (or the native replay runtime).
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
void vf_assert(int cond, const char* msg);
void vf_assume(int cond);
uint8_t vf_u8(const char* name);
uint16_t vf_u16(const char* name);
uint32_t vf_u32(const char* name);
uint64_t vf_u64(const char* name);
void vf_bytes(void* p, size_t n, const char* name);
uint32_t vf_choice(uint32_t n, const char* name);  // forks: 0..n-1
int64_t vf_param(const char* name, int64_t dflt);
void vf_reach(const char* name);
[[noreturn]] void vf_fail(const char* msg);
void vf_allow_crash(int on);
uint64_t vf_concretize(uint64_t v);
uint64_t vf_unique(uint64_t v);  // the value as a constant if the path leaves only one
uint32_t vf_co_create(void (*fn)(void*), void* arg);
void vf_co_switch(uint32_t id);
uint32_t vf_co_self();
void vf_log(const char* msg, uint64_t v);
void vf_logs(const char* msg);
int vf_symbolic();
[[noreturn]] void vf_end();
int vf_is_sym(uint64_t v);
uint64_t vf_ite(int c, uint64_t a, uint64_t b);
int vf_ptr_valid(const void* p, size_t n);
}
#ifdef __cplusplus
#include <string>
namespace vf {
inline bool flag(const char* n) { return vf_choice(2, n) != 0; }
// A symbolic string whose length is one of min..max (a fork) with symbolic bytes.
inline std::string str(size_t min, size_t max, const char* name) {
  size_t n = min + (max > min ? vf_choice((uint32_t)(max - min + 1), name) : 0);
  std::string s(n, '\0');
  if (n) vf_bytes(&s[0], n, name);
  return s;
}
extern bool exact_numbers;  // print symbolic numbers digit by digit instead of an injective code
}
#endif
