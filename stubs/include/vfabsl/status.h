#pragma once
#include <map>
#include "vfabsl/strings.h"
namespace absl {
enum class StatusCode : int { kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6, kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16, kDoNotUseReservedForFutureExpansionUseDefaultInSwitchInstead_ = 20 };
inline std::string StatusCodeToString(StatusCode c) {
  static const char* const n[] = {"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"};
  unsigned i = (unsigned)c; return i <= 16 ? n[i] : "";
}
inline std::ostream& operator<<(std::ostream& o, StatusCode c) { return o << StatusCodeToString(c); }
enum class StatusToStringMode : int { kWithNoExtraData = 0, kWithPayload = 1, kWithEverything = ~0, kDefault = 1 };
class Status {
 public:
  Status() : c_(StatusCode::kOk) {}
  // like the real library, unknown raw codes read back as kUnknown and an OK status carries no message
  Status(StatusCode c, string_view m) : c_(c) { if (c != StatusCode::kOk) m_ = std::string(m); }
  bool ok() const { return c_ == StatusCode::kOk; }
  StatusCode code() const { int v = (int)c_; return v >= 0 && v <= 16 ? c_ : StatusCode::kUnknown; }
  int raw_code() const { return (int)c_; }
  string_view message() const { return m_; }
  std::string ToString(StatusToStringMode = StatusToStringMode::kDefault) const { return ok() ? std::string("OK") : StatusCodeToString(code()) + ": " + m_; }
  void Update(const Status& s) { if (ok()) *this = s; }
  void IgnoreError() const {}
  void SetPayload(string_view k, Cord v) { if (!ok()) p_[std::string(k)] = std::move(v); }
  optional<Cord> GetPayload(string_view k) const { auto i = p_.find(std::string(k)); if (i == p_.end()) return nullopt; return i->second; }
  bool ErasePayload(string_view k) { return p_.erase(std::string(k)) != 0; }
  friend bool operator==(const Status& a, const Status& b) { return a.c_ == b.c_ && a.m_ == b.m_; }
  friend bool operator!=(const Status& a, const Status& b) { return !(a == b); }
 private:
  StatusCode c_; std::string m_; std::map<std::string, Cord> p_;
};
inline std::ostream& operator<<(std::ostream& o, const Status& s) { return o << s.ToString(); }
inline Status OkStatus() { return Status(); }
#define VF_ST(N, E) inline Status N##Error(string_view m) { return Status(StatusCode::k##N, m); } inline bool Is##N(const Status& s) { return s.code() == StatusCode::k##N; }
VF_ST(Cancelled, ) VF_ST(Unknown, ) VF_ST(InvalidArgument, ) VF_ST(DeadlineExceeded, ) VF_ST(NotFound, ) VF_ST(AlreadyExists, ) VF_ST(PermissionDenied, ) VF_ST(ResourceExhausted, ) VF_ST(FailedPrecondition, ) VF_ST(Aborted, ) VF_ST(OutOfRange, ) VF_ST(Unimplemented, ) VF_ST(Internal, ) VF_ST(Unavailable, ) VF_ST(DataLoss, ) VF_ST(Unauthenticated, )
#undef VF_ST
inline Status CancelledError() { return Status(StatusCode::kCancelled, ""); }

template <class T> class StatusOr;
template <class T> struct vf_is_statusor : std::false_type {};
template <class T> struct vf_is_statusor<StatusOr<T>> : std::true_type {};
template <class T, class U, class = void> struct vf_conv_statusor : std::false_type {};
template <class T, class U> void vf_test_conv(char (*)[sizeof(std::declval<U>().operator StatusOr<T>())]);
template <class T, class U> struct vf_conv_statusor<T, U, decltype(vf_test_conv<T, U>(0))> : std::true_type {};
template <class T> class StatusOr {
  template <class U> friend class StatusOr;
 public:
  using value_type = T;
  explicit StatusOr() : s_(StatusCode::kUnknown, "") {}
  StatusOr(const StatusOr&) = default; StatusOr(StatusOr&&) = default; StatusOr& operator=(const StatusOr&) = default; StatusOr& operator=(StatusOr&&) = default;
  template <class U = T, std::enable_if_t<!std::is_same<remove_cvref_t<U>, StatusOr>::value && !std::is_same<remove_cvref_t<U>, Status>::value && !std::is_convertible<U&&, Status>::value && !std::is_same<remove_cvref_t<U>, in_place_t>::value && std::is_constructible<T, U&&>::value && std::is_convertible<U&&, T>::value, int> = 0>
  StatusOr(U&& u) : v_(std::in_place, std::forward<U>(u)) {}
  template <class U = T, std::enable_if_t<!std::is_same<remove_cvref_t<U>, StatusOr>::value && !std::is_same<remove_cvref_t<U>, Status>::value && !vf_is_statusor<remove_cvref_t<U>>::value && !std::is_convertible<U&&, Status>::value && !std::is_same<remove_cvref_t<U>, in_place_t>::value && std::is_constructible<T, U&&>::value && !std::is_convertible<U&&, T>::value, int> = 0, class = void>
  explicit StatusOr(U&& u) : v_(std::in_place, std::forward<U>(u)) {}
  template <class U, std::enable_if_t<!std::is_same<remove_cvref_t<U>, StatusOr>::value && !vf_is_statusor<remove_cvref_t<U>>::value && std::is_convertible<U&&, Status>::value && !vf_conv_statusor<T, U&&>::value, int> = 0, class = void, class = void>
  StatusOr(U&& u) : s_(std::forward<U>(u)) { if (s_.ok()) s_ = InternalError("An OK status is not a valid constructor argument to StatusOr<T>"); }
  template <class... A> explicit StatusOr(in_place_t, A&&... a) : v_(std::in_place, std::forward<A>(a)...) {}
  template <class U, std::enable_if_t<!std::is_same<U, T>::value && std::is_constructible<T, const U&>::value && !std::is_constructible<T, const StatusOr<U>&>::value, int> = 0>
  StatusOr(const StatusOr<U>& o) : s_(o.s_) { if (o.v_) v_.emplace(*o.v_); }
  template <class U, std::enable_if_t<!std::is_same<U, T>::value && std::is_constructible<T, U&&>::value && !std::is_constructible<T, StatusOr<U>&&>::value, int> = 0>
  StatusOr(StatusOr<U>&& o) : s_(o.s_) { if (o.v_) v_.emplace(std::move(*o.v_)); }
  template <class U = T, std::enable_if_t<!std::is_same<remove_cvref_t<U>, StatusOr>::value && !std::is_convertible<U&&, Status>::value && !vf_is_statusor<remove_cvref_t<U>>::value && std::is_constructible<T, U&&>::value, int> = 0>
  StatusOr& operator=(U&& u) { s_ = Status(); v_.emplace(std::forward<U>(u)); return *this; }
  template <class U, std::enable_if_t<!std::is_same<remove_cvref_t<U>, StatusOr>::value && !vf_is_statusor<remove_cvref_t<U>>::value && std::is_convertible<U&&, Status>::value && !vf_conv_statusor<T, U&&>::value, int> = 0, class = void>
  StatusOr& operator=(U&& u) { s_ = Status(std::forward<U>(u)); v_.reset(); return *this; }
  bool ok() const { return s_.ok(); }
  const Status& status() const& { return s_; }
  Status status() && { return s_; }
  const T& value() const& { chk(); return *v_; } T& value() & { chk(); return *v_; } T&& value() && { chk(); return std::move(*v_); } const T&& value() const&& { chk(); return std::move(*v_); }
  const T& operator*() const& { chk(); return *v_; } T& operator*() & { chk(); return *v_; } T&& operator*() && { chk(); return std::move(*v_); }
  const T* operator->() const { chk(); return &*v_; } T* operator->() { chk(); return &*v_; }
  template <class U> T value_or(U&& u) const& { return ok() ? *v_ : static_cast<T>(std::forward<U>(u)); } template <class U> T value_or(U&& u) && { return ok() ? std::move(*v_) : static_cast<T>(std::forward<U>(u)); }
  template <class... A> T& emplace(A&&... a) { s_ = Status(); v_.emplace(std::forward<A>(a)...); return *v_; }
  void IgnoreError() const {}
  const T& ValueOrDie() const& { return value(); } T ValueOrDie() && { chk(); return std::move(*v_); }
 private:
  void chk() const { if (!s_.ok()) abort(); }
  Status s_; std::optional<T> v_;
};
template <class T> bool operator==(const StatusOr<T>& a, const StatusOr<T>& b) { if (a.ok() && b.ok()) return *a == *b; return a.status() == b.status(); }
template <class T> bool operator!=(const StatusOr<T>& a, const StatusOr<T>& b) { return !(a == b); }
}  // namespace absl
