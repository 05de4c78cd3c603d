// Statistics of example queries.
#include "vf.h"
#include "vfabsl/sync.h"
#include "fcp/client/example_iterator_query_recorder.h"
using namespace fcp::client;
using google::internal::federated::plan::ExampleSelector;
namespace { struct Q { SingleExampleIteratorQueryRecorder* r; std::string uri, crit; int n; };
ExampleSelector sel(const std::string& uri, const std::string& c) { ExampleSelector s; s.set_collection_uri(uri); s.mutable_criteria()->set_type_url("t"); s.mutable_criteria()->set_value(c); return s; }
void same(const SingleExampleIteratorQuery& q, const Q& e) { vf_assert(q.collection_uri() == e.uri && q.criteria().value() == e.crit && q.criteria().type_url() == "t", "each result names its query"); vf_assert(q.example_count() == e.n, "the count is the number of examples of this query"); } }
extern "C" void vf_main() {
  SelectorContext ctx; std::string session = vf::str(0, 1, "session"); ctx.mutable_computation_properties()->set_session_name(session); ExampleIteratorQueryRecorderImpl rec(ctx); ctx.Clear();
  int ops = (int)vf_param("ops", 5); std::vector<Q> open;
  if (vf_param("threads", 0)) {
    struct T { ExampleIteratorQueryRecorderImpl& rec; SingleExampleIteratorQueryRecorder* shared; } t{rec, rec.RecordQuery(sel("x", "0"))};
    int other = vfs::spawn([](void* p) { T& t = *(T*)p; t.shared->Increment(); auto* own = t.rec.RecordQuery(sel("b", "2")); own->Increment(); own->Increment(); }, &t);
    t.shared->Increment(); auto* own = rec.RecordQuery(sel("a", "1")); own->Increment(); t.shared->Increment(); vfs::join(other);
    auto all = rec.StopRecordingAndGetQueries(); vf_assert(all.query_size() == 3, "every query is recorded");
    for (int i = 0; i < 3; i++) { auto& q = all.query(i); vf_assert(q.example_count() == (q.collection_uri() == "x" ? 3 : q.collection_uri() == "a" ? 1 : 2), "no example is lost between threads"); } vf_assert(all.query(0).collection_uri() == "x", "queries are listed in order"); vf_reach("threads"); return;
  }
  for (int i = 0; i < ops; i++) {
    int op = vf_choice(2 + 2 * (int)open.size(), "operation");
    if (op == 0) { if (open.size() < 3) { Q q{nullptr, vf::str(0, 1, "uri"), vf::str(0, 1, "criteria"), 0}; ExampleSelector s = sel(q.uri, q.crit); q.r = rec.RecordQuery(s); s.Clear(); open.push_back(q); } }
    else if (op == 1) { auto all = rec.StopRecordingAndGetQueries(); vf_assert(all.selector_context().computation_properties().session_name() == session, "the context is reported"); vf_assert(all.query_size() == (int)open.size(), "every query is listed once"); for (size_t j = 0; j < open.size(); j++) same(all.query((int)j), open[j]); if (!open.empty()) vf_reach("listed"); open.clear(); }
    else { Q& q = open[(op - 2) / 2]; if (op % 2 == 0) { q.r->Increment(); q.n++; } else { same(q.r->FinishRecordingAndGet(), q); q.n = 0; vf_reach("finished"); } }
  }
  auto all = rec.StopRecordingAndGetQueries(); vf_assert(all.query_size() == (int)open.size(), "every query is listed once"); for (size_t j = 0; j < open.size(); j++) same(all.query((int)j), open[j]);
}
