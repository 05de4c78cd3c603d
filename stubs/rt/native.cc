// Native implementation of the vf_ interface: replays the inputs of a counterexample.
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>
#include "vf.h"
extern "C" void vf_main();
static std::vector<unsigned long long> in; static size_t at; static std::map<std::string, int64_t> params; static volatile int allow;
static void over() { fprintf(stderr, "REPLAY: input exhausted\n"); fflush(stderr); _exit(42); }
static unsigned long long next(const char* n) { if (at >= in.size()) over(); unsigned long long v = in[at++]; if (getenv("VF_TRACE")) fprintf(stderr, "in %s = %llx\n", n, v); return v; }
extern "C" {
void vf_assert(int c, const char* m) { if (!c) { fprintf(stderr, "REPLAY: assertion failed: %s\n", m); fflush(stderr); _exit(41); } }
void vf_assume(int c) { if (!c) { fprintf(stderr, "REPLAY: assumption does not hold\n"); fflush(stderr); _exit(43); } }
uint8_t vf_u8(const char* n) { return (uint8_t)next(n); }
uint16_t vf_u16(const char* n) { return (uint16_t)next(n); }
uint32_t vf_u32(const char* n) { return (uint32_t)next(n); }
uint64_t vf_u64(const char* n) { return next(n); }
void vf_bytes(void* p, size_t n, const char* nm) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)next(nm); }
uint32_t vf_choice(uint32_t n, const char* nm) { return (uint32_t)next(nm); }
int64_t vf_param(const char* n, int64_t d) { auto i = params.find(n); return i == params.end() ? d : i->second; }
void vf_reach(const char*) {}
void vf_fail(const char* m) { vf_assert(0, m); abort(); }
void vf_allow_crash(int on) { allow = on; }
uint64_t vf_concretize(uint64_t v) { return v; }
uint64_t vf_unique(uint64_t v) { return v; }
void vf_log(const char* m, uint64_t v) { fprintf(stderr, "LOG %s %lld\n", m, (long long)v); }
void vf_logs(const char* m) { fprintf(stderr, "LOGS %s\n", m); }
int vf_symbolic() { return 0; }
void vf_end() { fflush(stdout); _exit(0); }
int vf_is_sym(uint64_t) { return 0; }
uint64_t vf_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int vf_ptr_valid(const void*, size_t) { return 1; }
}
struct Co { ucontext_t c; void (*fn)(void*); void* arg; };
static std::vector<Co*> cos_; static uint32_t curco;
static void coinit() { if (cos_.empty()) cos_.push_back(new Co()); }
static void tramp(unsigned a, unsigned b) { Co* c = (Co*)(((unsigned long)a << 32) | b); c->fn(c->arg); _exit(0); }
extern "C" uint32_t vf_co_create(void (*fn)(void*), void* arg) { coinit(); Co* c = new Co(); getcontext(&c->c); size_t n = 1 << 20; c->c.uc_stack.ss_sp = malloc(n); c->c.uc_stack.ss_size = n; c->fn = fn; c->arg = arg; makecontext(&c->c, (void (*)())tramp, 2, (unsigned)((unsigned long)c >> 32), (unsigned)(unsigned long)c); cos_.push_back(c); return (uint32_t)cos_.size() - 1; }
extern "C" void vf_co_switch(uint32_t id) { coinit(); uint32_t o = curco; curco = id; if (o != id) swapcontext(&cos_[o]->c, &cos_[id]->c); }
extern "C" uint32_t vf_co_self() { coinit(); return curco; }
static void onabort(int) { if (allow) _exit(0); fprintf(stderr, "REPLAY: abort\n"); _exit(44); }
// usage: replay <inputs> [k=v ...]; inputs: one "hex" (last field) per line
int main(int argc, char** argv) {
  signal(SIGABRT, onabort); coinit();
  FILE* f = fopen(argv[1], "r"); if (!f) return 2; char line[4096];
  while (fgets(line, sizeof line, f)) { char* p = strrchr(line, ' '); if (!p) continue; in.push_back(strtoull(p + 1, nullptr, 16)); }
  fclose(f);
  for (int i = 2; i < argc; i++) { char* e = strchr(argv[i], '='); if (e) params[std::string(argv[i], e - argv[i])] = strtoll(e + 1, nullptr, 0); }
  vf_main();
  return 0;
}
