#pragma once
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <initializer_list>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include "vf.h"
#define ABSL_PREDICT_FALSE(x) (x)
#define ABSL_PREDICT_TRUE(x) (x)
#define ABSL_MUST_USE_RESULT
#define ABSL_DEPRECATED(m)
#define ABSL_ATTRIBUTE_ALWAYS_INLINE
#define ABSL_ATTRIBUTE_NOINLINE
#define ABSL_ATTRIBUTE_UNUSED
#define ABSL_ATTRIBUTE_WEAK
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_ATTRIBUTE_PACKED
#define ABSL_ATTRIBUTE_INITIAL_EXEC
#define ABSL_ATTRIBUTE_HOT
#define ABSL_ATTRIBUTE_COLD
#define ABSL_ATTRIBUTE_RETURNS_NONNULL
#define ABSL_ATTRIBUTE_NONNULL(x)
#define ABSL_CONST_INIT
#define ABSL_FALLTHROUGH_INTENDED [[fallthrough]]
#define ABSL_ATTRIBUTE_FUNC_ALIGN(x)
#define ABSL_INTERNAL_ASSUME(x)
#define ABSL_ASSUME(x)
#define ABSL_ASSERT(x) assert(x)
#define ABSL_UNREACHABLE() abort()
#define ABSL_ARRAYSIZE(a) (sizeof(a) / sizeof((a)[0]))
#define ABSL_GUARDED_BY(x)
#define ABSL_PT_GUARDED_BY(x)
#define ABSL_ACQUIRED_AFTER(...)
#define ABSL_ACQUIRED_BEFORE(...)
#define ABSL_EXCLUSIVE_LOCKS_REQUIRED(...)
#define ABSL_SHARED_LOCKS_REQUIRED(...)
#define ABSL_LOCKS_EXCLUDED(...)
#define ABSL_LOCK_RETURNED(x)
#define ABSL_LOCKABLE
#define ABSL_SCOPED_LOCKABLE
#define ABSL_EXCLUSIVE_LOCK_FUNCTION(...)
#define ABSL_SHARED_LOCK_FUNCTION(...)
#define ABSL_UNLOCK_FUNCTION(...)
#define ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(...)
#define ABSL_SHARED_TRYLOCK_FUNCTION(...)
#define ABSL_ASSERT_EXCLUSIVE_LOCK(...)
#define ABSL_ASSERT_SHARED_LOCK(...)
#define ABSL_NO_THREAD_SAFETY_ANALYSIS
namespace absl {
using std::string_view; using std::optional; using std::nullopt; using std::nullopt_t; using std::make_optional; using std::in_place; using std::in_place_t;
using std::variant; using std::visit; using std::get; using std::get_if; using std::holds_alternative; using std::monostate; using std::make_unique;
template <class... T> using index_sequence_for = std::index_sequence_for<T...>;
template <size_t... I> using index_sequence = std::index_sequence<I...>;
template <size_t N> using make_index_sequence = std::make_index_sequence<N>;
template <class T> std::unique_ptr<T> WrapUnique(T* p) { return std::unique_ptr<T>(p); }
template <class T> std::remove_reference_t<T>&& move(T&& t) { return std::move(t); }
enum ConstInitType { kConstInit };
inline string_view ClippedSubstr(string_view s, size_t pos, size_t n = string_view::npos) { pos = pos < s.size() ? pos : s.size(); return s.substr(pos, n); }
inline string_view NullSafeStringView(const char* p) { return p ? string_view(p) : string_view(); }

template <class Sig> class FunctionRef;
template <class R, class... A> class FunctionRef<R(A...)> {
 public:
  template <class F, class = std::enable_if_t<!std::is_same<std::decay_t<F>, FunctionRef>::value && std::is_invocable_r<R, F&, A...>::value>>
  FunctionRef(const F& f) : o_(const_cast<void*>(static_cast<const void*>(&f))), c_([](void* o, A... a) -> R { return (*static_cast<const F*>(o))(std::forward<A>(a)...); }) {}
  FunctionRef(R (*f)(A...)) : o_((void*)f), c_([](void* o, A... a) -> R { return ((R(*)(A...))o)(std::forward<A>(a)...); }) {}
  R operator()(A... a) const { return c_(o_, std::forward<A>(a)...); }
 private:
  void* o_; R (*c_)(void*, A...);
};
template <class Sig> class AnyInvocable;
template <class R, class... A> class AnyInvocable<R(A...)> {
  struct Base { virtual ~Base() {} virtual R call(A... a) = 0; };
  template <class F> struct Impl : Base { F f; template <class G> Impl(G&& g) : f(std::forward<G>(g)) {} R call(A... a) override { return f(std::forward<A>(a)...); } };
  std::unique_ptr<Base> p_;
 public:
  AnyInvocable() {} AnyInvocable(std::nullptr_t) {}
  AnyInvocable(AnyInvocable&&) = default; AnyInvocable& operator=(AnyInvocable&&) = default;
  template <class F, class = std::enable_if_t<!std::is_same<std::decay_t<F>, AnyInvocable>::value>> AnyInvocable(F&& f) : p_(new Impl<std::decay_t<F>>(std::forward<F>(f))) {}
  AnyInvocable& operator=(std::nullptr_t) { p_.reset(); return *this; }
  R operator()(A... a) { if (!p_) abort(); return p_->call(std::forward<A>(a)...); }
  explicit operator bool() const { return (bool)p_; }
  friend bool operator==(const AnyInvocable& f, std::nullptr_t) { return !f.p_; }
  friend bool operator!=(const AnyInvocable& f, std::nullptr_t) { return (bool)f.p_; }
};
template <class R, class... A> class AnyInvocable<R(A...)&&> : public AnyInvocable<R(A...)> { public: using AnyInvocable<R(A...)>::AnyInvocable; };
template <class R, class... A> class AnyInvocable<R(A...) const> : public AnyInvocable<R(A...)> { public: using AnyInvocable<R(A...)>::AnyInvocable; R operator()(A... a) const { return const_cast<AnyInvocable*>(this)->AnyInvocable<R(A...)>::operator()(std::forward<A>(a)...); } };
template <class F, class... A> auto bind_front(F&& f, A&&... a) { return [f = std::forward<F>(f), t = std::make_tuple(std::forward<A>(a)...)](auto&&... r) mutable { return std::apply([&](auto&... x) { return f(x..., std::forward<decltype(r)>(r)...); }, t); }; }

template <class F> class Cleanup {
 public:
  Cleanup(F f) : f_(std::move(f)) {} Cleanup(Cleanup&& o) : f_(std::move(o.f_)), on_(o.on_) { o.on_ = false; }
  ~Cleanup() { if (on_) f_(); }
  void Cancel() && { on_ = false; } void Invoke() && { on_ = false; f_(); }
 private: F f_; bool on_ = true;
};
template <class F> Cleanup<std::decay_t<F>> MakeCleanup(F&& f) { return Cleanup<std::decay_t<F>>(std::forward<F>(f)); }

template <class T> class Span {
 public:
  using value_type = std::remove_cv_t<T>; using element_type = T; using iterator = T*; using const_iterator = const T*; using size_type = size_t; using reference = T&; using pointer = T*;
  static const size_t npos = ~size_t(0);
  constexpr Span() : p_(nullptr), n_(0) {}
  constexpr Span(T* p, size_t n) : p_(p), n_(n) {}
  template <size_t N> constexpr Span(T (&a)[N]) : p_(a), n_(N) {}
  template <class C, class = std::enable_if_t<!std::is_same<std::decay_t<C>, Span>::value && std::is_convertible<decltype(std::declval<C&>().data()), T*>::value>> constexpr Span(C& c) : p_(c.data()), n_(c.size()) {}
  template <class C, class = std::enable_if_t<std::is_const<T>::value && !std::is_same<std::decay_t<C>, Span>::value && std::is_convertible<decltype(std::declval<const C&>().data()), T*>::value>, class = void> constexpr Span(const C& c) : p_(c.data()), n_(c.size()) {}
  template <class U = T, class = std::enable_if_t<std::is_const<U>::value>> Span(std::initializer_list<value_type> l) : p_(l.begin()), n_(l.size()) {}
  constexpr T* data() const { return p_; } constexpr size_t size() const { return n_; } constexpr size_t length() const { return n_; } constexpr bool empty() const { return n_ == 0; }
  constexpr T& operator[](size_t i) const { return p_[i]; } T& at(size_t i) const { if (i >= n_) abort(); return p_[i]; }
  constexpr T* begin() const { return p_; } constexpr T* end() const { return p_ + n_; } constexpr const T* cbegin() const { return p_; } constexpr const T* cend() const { return p_ + n_; }
  auto rbegin() const { return std::reverse_iterator<T*>(end()); } auto rend() const { return std::reverse_iterator<T*>(begin()); }
  T& front() const { return p_[0]; } T& back() const { return p_[n_ - 1]; }
  Span subspan(size_t pos, size_t len = npos) const { if (pos > n_) abort(); size_t r = n_ - pos; return Span(p_ + pos, len < r ? len : r); }
  Span first(size_t k) const { return Span(p_, k); } Span last(size_t k) const { return Span(p_ + n_ - k, k); }
  void remove_prefix(size_t k) { p_ += k; n_ -= k; } void remove_suffix(size_t k) { n_ -= k; }
 private: T* p_; size_t n_;
};
template <class T, class U> bool operator==(Span<T> a, Span<U> b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return false; return true; }
template <class T> Span<T> MakeSpan(T* p, size_t n) { return Span<T>(p, n); }
template <class C> auto MakeSpan(C& c) -> Span<std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }
template <class T> Span<const T> MakeConstSpan(T* p, size_t n) { return Span<const T>(p, n); }
template <class C> auto MakeConstSpan(const C& c) -> Span<const std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }
template <class T, size_t N> Span<const T> MakeConstSpan(const T (&a)[N]) { return Span<const T>(a, N); }

using uint128 = unsigned __int128; using int128 = __int128;
constexpr uint64_t Uint128Low64(uint128 v) { return (uint64_t)v; }
constexpr uint64_t Uint128High64(uint128 v) { return (uint64_t)(v >> 64); }
constexpr uint128 MakeUint128(uint64_t h, uint64_t l) { return ((uint128)h << 64) | l; }
constexpr uint128 Uint128Max() { return ~(uint128)0; }
template <class T> constexpr int countl_zero(T x) { int w = (int)sizeof(T) * 8; return x == 0 ? w : (sizeof(T) <= 4 ? __builtin_clz((unsigned)x) - (32 - w) : __builtin_clzll(x)); }
template <class T> constexpr int countr_zero(T x) { return x == 0 ? (int)sizeof(T) * 8 : __builtin_ctzll(x); }
template <class T> constexpr int bit_width(T x) { return (int)sizeof(T) * 8 - countl_zero(x); }
template <class T> constexpr int popcount(T x) { return __builtin_popcountll(x); }
template <class T> constexpr bool has_single_bit(T x) { return x != 0 && (x & (x - 1)) == 0; }
template <class T> constexpr T bit_ceil(T x) { T r = 1; while (r < x) r <<= 1; return r; }
template <class T> constexpr T bit_floor(T x) { return x == 0 ? 0 : T{1} << (bit_width(x) - 1); }
template <class T> constexpr T rotl(T x, int s) { int w = (int)sizeof(T) * 8; s %= w; return s == 0 ? x : (T)((x << s) | (x >> (w - s))); }
template <class To, class From> To bit_cast(const From& f) { To t; __builtin_memcpy(&t, &f, sizeof t); return t; }
namespace big_endian {
inline void Store16(void* p, uint16_t v) { uint8_t* b = (uint8_t*)p; b[0] = v >> 8; b[1] = (uint8_t)v; }
inline void Store32(void* p, uint32_t v) { uint8_t* b = (uint8_t*)p; b[0] = v >> 24; b[1] = (uint8_t)(v >> 16); b[2] = (uint8_t)(v >> 8); b[3] = (uint8_t)v; }
inline void Store64(void* p, uint64_t v) { Store32(p, (uint32_t)(v >> 32)); Store32((uint8_t*)p + 4, (uint32_t)v); }
inline uint16_t Load16(const void* p) { const uint8_t* b = (const uint8_t*)p; return (uint16_t)((b[0] << 8) | b[1]); }
inline uint32_t Load32(const void* p) { const uint8_t* b = (const uint8_t*)p; return ((uint32_t)b[0] << 24) | ((uint32_t)b[1] << 16) | ((uint32_t)b[2] << 8) | b[3]; }
inline uint64_t Load64(const void* p) { return ((uint64_t)Load32(p) << 32) | Load32((const uint8_t*)p + 4); }
}
namespace little_endian {
inline void Store16(void* p, uint16_t v) { __builtin_memcpy(p, &v, 2); } inline void Store32(void* p, uint32_t v) { __builtin_memcpy(p, &v, 4); } inline void Store64(void* p, uint64_t v) { __builtin_memcpy(p, &v, 8); }
inline uint16_t Load16(const void* p) { uint16_t v; __builtin_memcpy(&v, p, 2); return v; } inline uint32_t Load32(const void* p) { uint32_t v; __builtin_memcpy(&v, p, 4); return v; } inline uint64_t Load64(const void* p) { uint64_t v; __builtin_memcpy(&v, p, 8); return v; }
}
template <class T> struct Hash { size_t operator()(const T&) const { return 0; } };
template <class T> using remove_cvref_t = std::remove_cv_t<std::remove_reference_t<T>>;
template <bool B, class T = void> using enable_if_t = std::enable_if_t<B, T>;
template <class T> using decay_t = std::decay_t<T>;
template <class... T> using void_t = std::void_t<T...>;
template <class T> T implicit_cast(T t) { return t; }
template <class T> class NoDestructor { alignas(T) char b_[sizeof(T)]; public: template <class... A> explicit NoDestructor(A&&... a) { new (b_) T(std::forward<A>(a)...); } T& operator*() { return *(T*)b_; } T* operator->() { return (T*)b_; } T* get() { return (T*)b_; } const T& operator*() const { return *(const T*)b_; } const T* operator->() const { return (const T*)b_; } };
template <class T> using Nonnull = T; template <class T> using Nullable = T;
template <class C, class T> auto c_find(C& c, const T& v) { auto i = std::begin(c); for (; i != std::end(c); ++i) if (*i == v) break; return i; }
template <class C, class P> bool c_any_of(const C& c, P p) { for (auto& x : c) if (p(x)) return true; return false; }
template <class C, class P> bool c_all_of(const C& c, P p) { for (auto& x : c) if (!p(x)) return false; return true; }
template <class C, class P> bool c_none_of(const C& c, P p) { for (auto& x : c) if (p(x)) return false; return true; }
template <class C, class P> auto c_find_if(C& c, P p) { auto i = std::begin(c); for (; i != std::end(c); ++i) if (p(*i)) break; return i; }
template <class C, class T> bool c_linear_search(const C& c, const T& v) { for (auto& x : c) if (x == v) return true; return false; }
template <class C, class F> F c_for_each(C&& c, F f) { for (auto&& x : c) f(x); return f; }
template <class C, class T> T c_accumulate(const C& c, T t) { for (auto& x : c) t = t + x; return t; }
template <class C, class T, class F> T c_accumulate(const C& c, T t, F f) { for (auto& x : c) t = f(t, x); return t; }
template <class C, class P> long c_count_if(const C& c, P p) { long n = 0; for (auto& x : c) if (p(x)) n++; return n; }
template <class C, class T> long c_count(const C& c, const T& v) { long n = 0; for (auto& x : c) if (x == v) n++; return n; }
template <class C, class T> bool c_contains(const C& c, const T& v) { return c_linear_search(c, v); }
template <class C, class O> O c_copy(const C& c, O o) { for (auto& x : c) *o++ = x; return o; }
template <class C, class O, class P> O c_copy_if(const C& c, O o, P p) { for (auto& x : c) if (p(x)) *o++ = x; return o; }
template <class C, class O, class F> O c_transform(const C& c, O o, F f) { for (auto& x : c) *o++ = f(x); return o; }
template <class C, class D, class O, class F> O c_transform(const C& c, const D& d, O o, F f) { auto i = std::begin(c); auto j = std::begin(d); for (; i != std::end(c) && j != std::end(d); ++i, ++j) *o++ = f(*i, *j); return o; }
template <class C, class T> void c_fill(C& c, const T& v) { for (auto& x : c) x = v; }
template <class C, class T> void c_iota(C& c, T v) { for (auto& x : c) { x = v; ++v; } }
template <class C, class G> auto c_generate(C& c, G g) { auto i = std::begin(c); for (; i != std::end(c); ++i) *i = g(); return i; }
template <class C, class D> bool c_equal(const C& c, const D& d) { auto i = std::begin(c); auto j = std::begin(d); for (; i != std::end(c) && j != std::end(d); ++i, ++j) if (!(*i == *j)) return false; return i == std::end(c) && j == std::end(d); }
template <class C, class L> auto c_max_element(C& c, L less) { auto b = std::begin(c); for (auto i = b; i != std::end(c); ++i) if (less(*b, *i)) b = i; return b; }
template <class C> auto c_max_element(C& c) { return c_max_element(c, [](const auto& a, const auto& b) { return a < b; }); }
template <class C, class L> auto c_min_element(C& c, L less) { auto b = std::begin(c); for (auto i = b; i != std::end(c); ++i) if (less(*i, *b)) b = i; return b; }
template <class C> auto c_min_element(C& c) { return c_min_element(c, [](const auto& a, const auto& b) { return a < b; }); }
template <class C, class L> void c_sort(C& c, L less) { auto b = std::begin(c), e = std::end(c); for (auto i = b; i != e; ++i) for (auto j = i; j != b && less(*j, *(j - 1)); --j) { auto t = std::move(*j); *j = std::move(*(j - 1)); *(j - 1) = std::move(t); } }
template <class C> void c_sort(C& c) { c_sort(c, [](const auto& a, const auto& b) { return a < b; }); }
template <class C, class L> void c_stable_sort(C& c, L less) { c_sort(c, less); }
template <class C> void c_stable_sort(C& c) { c_sort(c); }
template <class C> bool c_is_sorted(const C& c) { auto i = std::begin(c); if (i == std::end(c)) return true; for (auto p = i++; i != std::end(c); p = i++) if (*i < *p) return false; return true; }
template <class C> void c_reverse(C& c) { auto b = std::begin(c), e = std::end(c); while (b != e && b != --e) { auto t = std::move(*b); *b = std::move(*e); *e = std::move(t); ++b; } }
template <class C> auto c_distance(const C& c) { long n = 0; for (auto i = std::begin(c); i != std::end(c); ++i) n++; return n; }
}  // namespace absl
#include <any>
namespace absl { using std::any; using std::any_cast;
class once_flag { public: bool d = false; }; template <class F, class... A> void call_once(once_flag& o, F&& f, A&&... a) { if (!o.d) { o.d = true; f(std::forward<A>(a)...); } } }
