// Randomness is unconstrained: every draw is a fresh symbolic value within the asked range.
#pragma once
#include "vfabsl/base.h"
#include <limits>
namespace absl {
class BitGen { public: using result_type = uint64_t; template <class... A> BitGen(A&&...) {} static constexpr result_type min() { return 0; } static constexpr result_type max() { return ~0ull; } result_type operator()() { return vf_u64("random"); } };
using InsecureBitGen = BitGen; class BitGenRef { public: using result_type = uint64_t; template <class G> BitGenRef(G&) {} static constexpr result_type min() { return 0; } static constexpr result_type max() { return ~0ull; } result_type operator()() { return vf_u64("random"); } };
struct IntervalClosedTag {}; struct IntervalClosedOpenTag {}; struct IntervalOpenTag {}; struct IntervalOpenClosedTag {};
static constexpr IntervalClosedTag IntervalClosed = {}; static constexpr IntervalClosedTag IntervalClosedClosed = {}; static constexpr IntervalClosedOpenTag IntervalClosedOpen = {}; static constexpr IntervalOpenTag IntervalOpen = {}, IntervalOpenOpen = {}; static constexpr IntervalOpenClosedTag IntervalOpenClosed = {};
template <class T> T vf_uni(T lo, T hi, bool cl, bool ch) {
  if constexpr (std::is_floating_point<T>::value) {
    if (vf_param("reals", 0) == 2) return (T)((lo + hi) / 2);
    if (vf_param("reals", 0)) { static const double f[] = {0.0, 1.1102230246251565e-16, 0.001, 0.25, 1.0 / 3, 0.5, 0.7, 0.999, 1 - 1.1102230246251565e-16}; return (T)(lo + f[vf_choice(9, "random real")] * (hi - lo)); }
    uint64_t b = vf_u64("random real"); double d; __builtin_memcpy(&d, &b, 8); vf_assume(d == d); vf_assume(cl ? d >= lo : d > lo); vf_assume(ch || lo == hi ? d <= hi : d < hi); return (T)d; }
  else { T v = (T)vf_u64("random int"); vf_assume(cl ? v >= lo : v > lo); vf_assume(ch ? v <= hi : (v < hi || lo >= hi)); return v; }
}
template <class R = void, class G, class A, class B> auto Uniform(G&&, A a, B b) { using T = std::conditional_t<std::is_void<R>::value, std::common_type_t<A, B>, R>; using U = std::conditional_t<std::is_void<T>::value, int, T>; return vf_uni<U>((U)a, (U)b, true, false); }
template <class R = void, class G, class A, class B> auto Uniform(IntervalClosedTag, G&&, A a, B b) { using U = std::conditional_t<std::is_void<R>::value, std::common_type_t<A, B>, R>; return vf_uni<U>((U)a, (U)b, true, true); }
template <class R = void, class G, class A, class B> auto Uniform(IntervalClosedOpenTag, G&& g, A a, B b) { using U = std::conditional_t<std::is_void<R>::value, std::common_type_t<A, B>, R>; return vf_uni<U>((U)a, (U)b, true, false); }
template <class R = void, class G, class A, class B> auto Uniform(IntervalOpenTag, G&&, A a, B b) { using U = std::conditional_t<std::is_void<R>::value, std::common_type_t<A, B>, R>; return vf_uni<U>((U)a, (U)b, false, false); }
template <class R, class G> R Uniform(G&&) { return (R)vf_u64("random"); }
template <class G> bool Bernoulli(G&&, double p) { return p <= 0 ? false : p >= 1 ? true : vf_choice(2, "bernoulli"); }
}
