// Trace spans: identity, parents and nesting.
#include <new>
#include <string>
#include <vector>
#include "fcp/tracing/scoped_tracing_recorder.h"
#include "fcp/tracing/text_tracing_recorder.h"
#include "fcp/tracing/tracing_span.h"
#include "vfabsl/sync.h"
#include "vffs.h"
#include "vf.h"
using namespace fcp;
struct SpanT {};
struct EventT {};
namespace fcp {
#define VF_TRAITS(T, TAG, SPAN) template <> class TracingTraits<T> : public TracingTraitsBase { public: \
  static constexpr TracingTag kTag = TracingTag(TAG); static constexpr TracingSeverity kSeverity = TracingSeverity::kInfo; static constexpr bool kIsSpan = SPAN; \
  const char* Name() const override { return #T; } TracingSeverity Severity() const override { return TracingSeverity::kInfo; } \
  std::string TextFormat(const flatbuffers::DetachedBuffer& b) const override { return b.vf_text(); } std::string JsonStringFormat(const uint8_t*) const override { return ""; } \
  static flatbuffers::Offset<T> Create(int n, flatbuffers::FlatBufferBuilder* fbb) { fbb->vf_num("n", n); return flatbuffers::Offset<T>(1); } };
VF_TRAITS(SpanT, "SPAN", true)
VF_TRAITS(EventT, "EVNT", false)
}
struct Rec;
struct Sp : tracing_internal::TracingSpanImpl {
  Rec* r; TracingSpanId id; Sp(Rec* rr, TracingSpanId i) : r(rr), id(i) {}
  void TraceImpl(flatbuffers::DetachedBuffer&& b, const TracingTraitsBase& t) override;
  TracingSpanRef Ref() override;
};
struct Rec : tracing_internal::TracingRecorderImpl {
  std::unique_ptr<Sp> root; std::vector<std::pair<int64_t, std::string>> events; int64_t last_parent = -1; TracingSpanId last{0};
  Rec() : root(new Sp(this, TracingSpanId(0))) {}
  void TraceImpl(TracingSpanId id, flatbuffers::DetachedBuffer&& b, const TracingTraitsBase& t) override { events.push_back({id.value, t.TextFormat(b)}); }
  tracing_internal::TracingSpanImpl* GetRootSpan() override { return root.get(); }
  std::unique_ptr<tracing_internal::TracingSpanImpl> CreateChildSpan(TracingSpanId p, flatbuffers::DetachedBuffer&& b, const TracingTraitsBase& t) override { last = TracingSpanId::NextUniqueId(); last_parent = p.value; return std::make_unique<Sp>(this, last); }
};
void Sp::TraceImpl(flatbuffers::DetachedBuffer&& b, const TracingTraitsBase& t) { r->TraceImpl(id, std::move(b), t); }
TracingSpanRef Sp::Ref() { return TracingSpanRef(r->shared_from_this(), id); }
static int64_t got[4][3];
// Text of a number, as written by the recorder.
static std::string num(int64_t v) { std::string s; do { s.insert(s.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return s; }
static bool line(const std::string& all, const std::string& a, const std::string& b) { size_t at = 0; while (at < all.size()) { size_t e = all.find('\n', at); if (e == std::string::npos) e = all.size(); std::string l = all.substr(at, e - at); if (l.find(a) != std::string::npos && l.size() >= b.size() && l.compare(l.size() - b.size(), b.size(), b) == 0) return true; at = e + 1; } return false; }
template <class F> static void nest(int steps, F parent_of_last, F events, bool text) {
  typedef TracingSpan<SpanT> S; alignas(S) static char mem[8][sizeof(S)]; S* open[8]; int64_t id[8]; int depth = 0; std::vector<int64_t> all{0}; std::unique_ptr<UnscopedTracingSpan<SpanT>> loose; int nev = 0;
  auto fresh = [&](int64_t v, int64_t parent) { for (int64_t o : all) vf_assert(o != v, "every span has its own identifier"); all.push_back(v); parent_of_last(v, parent); };
  for (int s = 0; s < steps; s++) {
    int64_t top = depth ? id[depth - 1] : 0;
    switch (vf_choice(6, "operation")) {
      case 0: if (depth < 8) { open[depth] = ::new (mem[depth]) S(1); id[depth] = open[depth]->Ref().span_id().value; fresh(id[depth], top); depth++; } break;
      case 1: if (depth) { depth--; open[depth]->~S(); } break;
      case 2: { loose = std::make_unique<UnscopedTracingSpan<SpanT>>(2); fresh(loose->Ref().span_id().value, top); break; }
      case 3: if (depth) { int k = vf_choice(depth, "parent"); loose = std::make_unique<UnscopedTracingSpan<SpanT>>(open[k]->Ref(), 3); fresh(loose->Ref().span_id().value, id[k]); } break;
      case 4: Trace<EventT>(100 + nev); events(nev++, top); break;
      case 5: if (loose) { int64_t l = loose->Ref().span_id().value; Trace<EventT>(loose->Ref(), 100 + nev); events(nev++, l); if (depth < 8) { open[depth] = ::new (mem[depth]) S(loose->Ref(), 4); id[depth] = open[depth]->Ref().span_id().value; fresh(id[depth], l); depth++; } } break;
    }
    vf_assert(TracingSpanRef::Top().span_id().value == (depth ? id[depth - 1] : 0), "leaving a span restores the enclosing one");
  }
  while (depth) { depth--; open[depth]->~S(); vf_assert(TracingSpanRef::Top().span_id().value == (depth ? id[depth - 1] : 0), "leaving a span restores the enclosing one"); }
}
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0), steps = (int)vf_param("steps", 4);
  if (mode == 0) {
    auto rec = std::make_shared<Rec>(); rec->InstallAsThreadLocal();
    auto parent = std::function<void(int64_t, int64_t)>([&](int64_t v, int64_t p) { vf_assert(rec->last.value == v, "the span carries the identifier it was created with"); vf_assert(rec->last_parent == p, "a span records the enclosing span as its parent"); });
    auto ev = std::function<void(int64_t, int64_t)>([&](int64_t n, int64_t s) { vf_assert((int64_t)rec->events.size() == n + 1, "every event is recorded once"); vf_assert(rec->events[n].first == s, "an event is recorded under its span"); vf_assert(rec->events[n].second == "{ n: " + num(100 + n) + " }", "an event keeps its data"); });
    nest(steps, parent, ev, false);
    rec->UninstallAsThreadLocal(); vf_reach("nested");
  } else if (mode == 1) {
    vffs::disk.dirs.insert("/t");
    { TextTracingRecorder rec("/t/log", absl::UTCTimeZone()); ScopedTracingRecorder sc(&rec);
    auto parent = std::function<void(int64_t, int64_t)>([&](int64_t v, int64_t p) { vf_assert(line(vffs::disk.files["/t/log"], " " + num(v) + ": BEGIN", "parent: " + num(p)), "a span records the enclosing span as its parent"); });
    auto ev = std::function<void(int64_t, int64_t)>([&](int64_t n, int64_t s) { vf_assert(line(vffs::disk.files["/t/log"], " " + num(s) + ": ", "EventT{ n: " + num(100 + n) + " }"), "an event is recorded under its span"); });
    nest(steps, parent, ev, true); }
    vf_reach("nested");
  } else if (mode == 2) {  // identifiers on several threads
    int n = (int)vf_param("threads", 2), k = (int)vf_param("each", 2), ids[4]; static int each; each = k; static int arg[4] = {0, 1, 2, 3};
    auto body = [](void* p) { int t = *(int*)p; for (int i = 0; i < each; i++) { vfs::point("take"); got[t][i] = TracingSpanId::NextUniqueId().value; } };
    for (int t = 1; t < n; t++) ids[t] = vfs::spawn(body, &arg[t]);
    body(&arg[0]); for (int t = 1; t < n; t++) vfs::join(ids[t]);
    for (int a = 0; a < n; a++) for (int i = 0; i < k; i++) for (int b = 0; b < n; b++) for (int j = 0; j < k; j++) { vf_assert(got[a][i] != 0, "no span has the identifier of the root"); if (a != b || i != j) vf_assert(got[a][i] != got[b][j], "every span has its own identifier"); }
    vf_reach("ids");
  } else if (mode == 5) {  // one recorder installed repeatedly, then another
    auto a = std::make_shared<Rec>(), b = std::make_shared<Rec>(); int n = 0; bool second = false; auto is = [&](std::shared_ptr<Rec>& r) { return tracing_internal::TracingRecorderImpl::GetCurrent().get() == r.get(); };
    for (int s = 0; s < steps; s++) {
      auto& r = second ? b : a;
      switch (vf_choice(3, "operation")) {
        case 0: r->InstallAsThreadLocal(); n++; break;
        case 1: if (n) { r->UninstallAsThreadLocal(); n--; } break;
        case 2: if (!n) second = !second; break;
      }
      vf_assert(is(a) == (n && !second) && is(b) == (n && second), "the installed recorder stays until it was uninstalled as often"); if (n > 1) vf_reach("installed twice");
      if (n) { auto& c = second ? b : a; size_t k = c->events.size(); Trace<EventT>(7); vf_assert(c->events.size() == k + 1, "events go to the installed recorder"); }
    }
    for (auto& r = second ? b : a; n; n--) r->UninstallAsThreadLocal();
  } else if (mode == 3) {  // identifiers at any age of the process
    uint64_t a = vf_u64("first"), b = vf_u64("second"); vf_assume(a > 0 && a < b && b < (1ull << 62));
    TracingSpanId::id_source = (int64_t)a; TracingSpanId x = TracingSpanId::NextUniqueId(), x2 = TracingSpanId::NextUniqueId();
    TracingSpanId::id_source = (int64_t)b; TracingSpanId y = TracingSpanId::NextUniqueId();
    vf_assert(x != y && x != x2 && !(x == y) && x.value != y.value, "every span has its own identifier"); vf_assert(x.value != 0, "no span has the identifier of the root"); vf_assert(x < y && !(y < x), "identifiers are ordered by age");
    vf_reach("ids");
  } else {  // traits by tag
    TracingTraitsBase::Register(TracingTag("SPAN"), std::make_unique<TracingTraits<SpanT>>()); TracingTraitsBase::Register(TracingTag("EVNT"), std::make_unique<TracingTraits<EventT>>());
    char t[5] = {0}; vf_bytes(t, 4, "tag"); for (int i = 0; i < 4; i++) vf_assume(t[i] != 0);
    const char* n = TracingTraitsBase::Lookup(TracingTag(t))->Name(); auto is = [&](const char* s) { return t[0] == s[0] && t[1] == s[1] && t[2] == s[2] && t[3] == s[3]; };
    std::string w = is("SPAN") ? "SpanT" : is("EVNT") ? "EventT" : "?Unknown?"; vf_assert(w == n, "a tag finds the traits registered for it"); vf_reach("traits");
  }
}
