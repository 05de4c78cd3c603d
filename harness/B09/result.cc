// Result combinators.
#include <optional>
#include <string>
#include <variant>
#include "fcp/base/result.h"
#include "fcp/base/tracing_schema.h"
#include "fcp/tracing/tracing_span.h"
#include "vf.h"
using namespace fcp;
struct Rec;
struct Sp : tracing_internal::TracingSpanImpl { Rec* r; explicit Sp(Rec* rr) : r(rr) {} void TraceImpl(flatbuffers::DetachedBuffer&& b, const TracingTraitsBase& t) override; TracingSpanRef Ref() override; };
struct Rec : tracing_internal::TracingRecorderImpl {
  std::unique_ptr<Sp> root; std::vector<std::string> ev; Rec() : root(new Sp(this)) {}
  void TraceImpl(TracingSpanId id, flatbuffers::DetachedBuffer&& b, const TracingTraitsBase& t) override { ev.push_back(t.Name() + t.TextFormat(b)); }
  tracing_internal::TracingSpanImpl* GetRootSpan() override { return root.get(); }
  std::unique_ptr<tracing_internal::TracingSpanImpl> CreateChildSpan(TracingSpanId p, flatbuffers::DetachedBuffer&& b, const TracingTraitsBase& t) override { return std::make_unique<Sp>(this); }
};
void Sp::TraceImpl(flatbuffers::DetachedBuffer&& b, const TracingTraitsBase& t) { r->TraceImpl(TracingSpanId(0), std::move(b), t); }
TracingSpanRef Sp::Ref() { return TracingSpanRef(r->shared_from_this(), TracingSpanId(0)); }
static std::shared_ptr<Rec> rec;
static Error err() { return TraceError<ResultExpectError>("x", "f", 1); }
// A value that counts its copies.
struct V { uint32_t v; int* copies; V(uint32_t a, int* c) : v(a), copies(c) {} V(const V& o) : v(o.v), copies(o.copies) { ++*copies; } V(V&& o) : v(o.v), copies(o.copies) { o.v = 0xdead; } V& operator=(const V&) = default; };
static int ran[4]; static int copies;
static Result<V> step(int k, const V& v, bool fail) { ran[k]++; if (fail) return err(); return V(v.v * 3 + k, &copies); }
static Result<uint32_t> tries(uint32_t v, bool f0, bool f1, int* after) {
  uint32_t a = FCP_TRY(f0 ? Result<uint32_t>(err()) : Result<uint32_t>(v)); after[0]++;
  uint32_t b = FCP_TRY(f1 ? Result<uint32_t>(err()) : Result<uint32_t>(a + 1)); after[1]++;
  return b + 1;
}
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0); rec = std::make_shared<Rec>(); rec->InstallAsThreadLocal();
  if (mode == 0) {  // chains of Then/Map on lvalues and rvalues
    bool ok0 = vf::flag("first ok"), f1 = vf::flag("second fails"), f2 = vf::flag("third fails"), mv = vf::flag("moving"); uint32_t x = vf_u32("value");
    Result<V> r = ok0 ? Result<V>(V(x, &copies)) : Result<V>(err()); size_t errs = rec->ev.size();
    vf_assert(r.is_error() == !ok0, "a result is an error exactly when it was made from one");
    auto a = mv ? std::move(r).Then([&](V&& v) { return step(1, v, f1); }) : r.Then([&](const V& v) { return step(1, v, f1); });
    auto b = a.Map([&](const V& v) { ran[2]++; return (uint64_t)v.v + 5; });
    auto c = std::move(b).Then([&](uint64_t&& v) -> Result<uint32_t> { ran[3]++; if (f2) return err(); return (uint32_t)v; });
    bool ok1 = ok0 && !f1, ok2 = ok1 && !f2;
    vf_assert(ran[1] == (ok0 ? 1 : 0) && ran[2] == (ok1 ? 1 : 0) && ran[3] == (ok1 ? 1 : 0), "a step runs exactly once on a value and never on an error");
    vf_assert(a.is_error() == !ok1 && c.is_error() == !ok2, "an error stays an error and a value a value");
    vf_assert(rec->ev.size() == errs + (ok0 && f1 ? 1 : 0) + (ok1 && f2 ? 1 : 0), "passing an error on does not make another one");
    if (ok2) vf_assert(c.GetValueOrDie() == x * 3 + 1 + 5, "the value is passed on unchanged");
    if (!mv && ok0) vf_assert(r.GetValueOrDie().v == x, "a result that is not consumed keeps its value");
    vf_reach("chain");
  } else if (mode == 1) {  // early return
    bool f0 = vf::flag("first fails"), f1 = vf::flag("second fails"); uint32_t x = vf_u32("value"); int after[2] = {0, 0};
    auto r = tries(x, f0, f1, after);
    vf_assert(r.is_error() == (f0 || f1), "an error returns early"); vf_assert(after[0] == !f0 && after[1] == (!f0 && !f1), "nothing runs after the first error");
    vf_assert(rec->ev.size() == (f0 || f1 ? 1u : 0u), "the first error is returned"); if (!r.is_error()) vf_assert(r.GetValueOrDie() == x + 2, "values pass through");
    vf_reach("try");
  } else if (mode == 2) {  // wrong access stops the program
    bool ok = vf::flag("ok"), val = vf::flag("ask for the value"); uint32_t x = vf_u32("value"); Result<uint32_t> r = ok ? Result<uint32_t>(x) : Result<uint32_t>(err());
    if (ok != val) vf_allow_crash(1);
    if (val) { uint32_t g = vf::flag("moving") ? std::move(r).GetValueOrDie() : r.GetValueOrDie(); vf_assert(ok, "an error has no value"); vf_assert(g == x, "the value is the one stored"); } else { r.GetErrorOrDie(); vf_assert(!ok, "a value has no error"); }
    vf_reach("access");
  } else {  // expectations
    uint32_t x = vf_u32("value"); size_t n = 0; bool bad = false;
    auto chk = [&](bool is_err, bool want, const char* kind) { vf_assert(is_err == want, "exactly the unexpected alternatives become errors"); vf_assert(rec->ev.size() == (want ? 1u : 0u), "an unexpected alternative is traced once"); };
    switch (vf_choice(8, "expectation")) {
      case 0: { int k = vf_choice(3, "alternative"); std::variant<int, std::string, uint32_t> v; if (k == 0) v = 3; else if (k == 1) v = std::string("s"); else v = x; auto r = ExpectIs<uint32_t>()(v); chk(r.is_error(), k != 2, "is"); if (k == 2) vf_assert(r.GetValueOrDie() == x, "the expected value is passed on"); break; }
      case 1: { int k = vf_choice(3, "alternative"); std::variant<int, std::string, uint32_t> v; if (k == 0) v = (int)x; else if (k == 1) v = std::string("s"); else v = x; auto r = ExpectOneOf<uint32_t, int>()(v); chk(r.is_error(), k == 1, "one of");
        if (k == 2) vf_assert(std::holds_alternative<uint32_t>(r.GetValueOrDie()) && std::get<uint32_t>(r.GetValueOrDie()) == x, "the expected value is passed on"); if (k == 0) vf_assert(std::holds_alternative<int>(r.GetValueOrDie()) && std::get<int>(r.GetValueOrDie()) == (int)x, "the expected value is passed on"); break; }
      case 2: { bool b = vf::flag("truth"); chk(ExpectTrue()(b).is_error(), !b, "true"); break; }
      case 3: { bool b = vf::flag("truth"); chk(ExpectFalse()(b).is_error(), b, "false"); break; }
      case 4: { bool h = vf::flag("has value"); std::optional<uint32_t> o; if (h) o = x; auto r = ExpectHasValue()(o); chk(r.is_error(), !h, "value"); if (h) vf_assert(r.GetValueOrDie() == x, "the expected value is passed on"); break; }
      case 5: { bool h = vf::flag("has value"); std::optional<uint32_t> o; if (h) o = x; chk(ExpectIsEmpty()(o).is_error(), h, "empty"); break; }
      case 6: { uint32_t c = vf_choice(17, "code"); StatusOr<uint32_t> s = c ? StatusOr<uint32_t>(Status((StatusCode)c, "why")) : StatusOr<uint32_t>(x); auto r = ExpectOk()(s); chk(r.is_error(), c != 0, "ok"); if (!c) vf_assert(r.GetValueOrDie() == x, "the expected value is passed on");
        else { std::string w = " actual_code: "; if (c >= 10) w += '1'; w += (char)('0' + c % 10); w += " message: \"why\""; vf_assert(rec->ev[0].find(w) != std::string::npos, "the trace names the code and message that caused the error"); } break; }
      default: { uint32_t c = vf_u32("code"); vf_assume(c <= 16); Status s((StatusCode)c, "why"); auto r = ExpectOk()(s); chk(r.is_error(), c != 0, "ok"); break; }
    }
    vf_reach("expect");
  }
  rec->UninstallAsThreadLocal();
}
