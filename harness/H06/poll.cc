// Polling of long-running operations.
#include "../common/http.h"
#include "fcp/base/clock.h"
#include "fcp/base/wall_clock_stopwatch.h"
#include "fcp/client/http/protocol_request_helper.h"
#include "fcp/protos/federatedcompute/secure_aggregations.pb.h"
#include "fcp/protos/federatedcompute/task_assignments.pb.h"
using namespace fcp::client::http;
using google::longrunning::Operation;
namespace fc = google::internal::federatedcompute::v1;
namespace {
struct Ticker : fcp::Clock {
  std::vector<absl::Duration> slept; int* requests; std::vector<int> at;
  absl::Time Now() override { return absl::UnixEpoch(); }
  void Sleep(absl::Duration d) override { slept.push_back(d); at.push_back(*requests); }
  absl::Time NowLocked() override { return Now(); }
  void ScheduleWakeup(absl::Time) override {}
};
enum Meta { NONE, ASSIGN, KEYS, SHARES, RESULT, OTHER, DAMAGED };
struct Said { bool done = false, named = true, known = false; int64_t s = 0; int32_t n = 0; std::string name; uint32_t tag = 0; int error = 0; };
template <class M> void interval(Operation& op, Said& x, bool damaged) {
  M m; m.mutable_polling_interval()->set_seconds(x.s); m.mutable_polling_interval()->set_nanos(x.n); op.mutable_metadata()->PackFrom(m);
  if (damaged) op.mutable_metadata()->set_value("\x0a");
}
Said describe(Operation& op, bool odd_interval) {
  Said x; x.done = vf_choice(2, "done");
  static const char* NAMES[] = {"operations/one", "operations/t w/o?", "operation/one", "", "xoperations/one", "operations/"};
  x.name = NAMES[vf_choice(6, "name")]; x.named = x.name.compare(0, 11, "operations/") == 0;
  op.set_name(x.name); op.set_done(x.done);
  if (x.done) {
    x.tag = vf_u32("content");
    if (vf_choice(2, "failed")) { x.error = 13; op.mutable_error()->set_code(13); op.mutable_error()->set_message(std::to_string(1)); }
    else { fc::StartTaskAssignmentMetadata m; m.mutable_polling_interval()->set_seconds(x.tag); op.mutable_response()->PackFrom(m); }
    return x;
  }
  if (odd_interval) {
    switch (vf_choice(3, "size")) {
      case 0: x.s = (int64_t)vf_u64("seconds"); vf_assume(x.s >= -1000000 && x.s <= 1000000); break;
      case 1: x.s = 1ll << 40; break;
      default: x.s = -(1ll << 40);
    }
    x.n = (int32_t)vf_u32("nanoseconds");
    int m = vf_choice(7, "metadata"); x.known = m >= ASSIGN && m <= RESULT;
    if (m == ASSIGN) interval<fc::StartTaskAssignmentMetadata>(op, x, false);
    else if (m == KEYS) interval<fc::AdvertiseKeysMetadata>(op, x, false);
    else if (m == SHARES) interval<fc::ShareKeysMetadata>(op, x, false);
    else if (m == RESULT) interval<fc::SubmitSecureAggregationResultMetadata>(op, x, false);
    else if (m == OTHER) { interval<fc::ShareKeysMetadata>(op, x, false); op.mutable_metadata()->set_type_url("type.googleapis.com/other.Metadata"); }
    else if (m == DAMAGED) interval<fc::ShareKeysMetadata>(op, x, true);
  } else { x.s = vf_u8("seconds"); x.known = true; interval<fc::ShareKeysMetadata>(op, x, false); }
  return x;
}
}
extern "C" void vf_main() {
  int steps = (int)vf_param("steps", 2), odd = (int)vf_param("odd", 0);  // index of the operation whose interval is arbitrary
  vf::exact_numbers = true;
  VfHttpClient http; VfRunner run; Ticker clock; int requests = 0; clock.requests = &requests;
  int64_t down = 0, up = 0; auto watch = fcp::WallClockStopwatch::Create();
  ProtocolRequestHelper helper(&http, &down, &up, watch.get(), &clock);
  ProtocolRequestCreator creator("https://host", "key", {{"extra", "header"}}, vf::flag("compression"));
  Operation first; std::vector<Said> said; said.push_back(describe(first, odd == 0));
  int failure = -1; absl::StatusCode code = absl::StatusCode::kOk; int64_t traffic = 0;
  http.answer = [&](int i, VfHandle& h, HttpRequestCallback& cb) {
    requests++; h.received = vf_u8("received"); traffic += h.received;
    if (i >= steps) vf_end();
    vf_assert(failure < 0, "polling stops at the first failure");
    int k = 1 + vf_choice(5, "answer");
    if (k >= 2) failure = i;
    switch (k) {
      case 1: { Operation op; said.push_back(describe(op, odd == i + 1)); vf_respond(h, cb, 200, {}, op.SerializeAsString()); break; }
      case 2: code = absl::StatusCode::kNotFound; vf_respond(h, cb, 404, {}, ""); break;
      case 3: code = absl::StatusCode::kUnavailable; cb.OnResponseError(*h.req, absl::UnavailableError("down")); break;
      case 4: code = absl::StatusCode::kInvalidArgument; vf_respond(h, cb, 200, {}, "\x0a"); break;
      default: { Operation op; op.set_name("operations/one"); op.set_done(true); vf_respond(h, cb, 200, {{"Content-Encoding", vf::flag("gzip") ? "gzip" : "br"}}, op.SerializeAsString()); }
    }
  };
  auto r = helper.PollOperationResponseUntilDone(first, creator, run.r);
  int polls = (int)http.seen.size(); const Said& last = said.back();
  for (int i = 0; i < (int)said.size() - 1; i++) vf_assert(!said[i].done && said[i].named, "polling ends with the first finished or unnamed operation");
  vf_assert(r.ok() == (failure < 0 && last.done), "polling returns a finished operation or an error");
  vf_assert(polls == (int)said.size() - 1 + (failure >= 0), "one question per answer");
  vf_assert(down == traffic, "traffic is counted");
  if (r.ok()) {
    vf_assert(r->done() && r->name() == last.name && r->has_error() == (last.error != 0), "the finished operation is returned as the server sent it");
    if (!last.error) { fc::StartTaskAssignmentMetadata m; vf_assert(r->response().UnpackTo(&m) && m.polling_interval().seconds() == last.tag, "the result is the server's"); }
    vf_reach("finished");
  } else if (failure >= 0) { vf_assert(code == absl::StatusCode::kOk || r.status().code() == code, "the first failure is reported"); vf_reach("failed"); }
  else { vf_assert(!last.named && r.status().code() == absl::StatusCode::kInvalidArgument, "operations without a proper name are refused"); vf_reach("refused"); }
  for (int i = 0; i < polls; i++) {
    auto& q = http.seen[i];
    std::string path = said[i].name == "operations/t w/o?" ? "operations/t%20w/o%3F" : said[i].name;
    vf_assert(q.uri == "https://host/v1/" + path + "?%24alt=proto" && q.method == HttpRequest::Method::kGet && !q.has_body, "each question asks for the operation the server named");
    bool key = false, extra = false; for (auto& h : q.headers) { key |= h.first == "x-goog-api-key" && h.second == "key"; extra |= h.first == "extra" && h.second == "header"; }
    vf_assert(key && extra, "questions carry the key and the headers");
    int64_t waited = 0; int waits = 0;
    for (size_t k = 0; k < clock.slept.size(); k++) if (clock.at[k] == i) { waits++; vf_assert(clock.slept[k] >= absl::ZeroDuration() && clock.slept[k] <= absl::Minutes(1), "waiting is limited"); waited += absl::ToInt64Nanoseconds(clock.slept[k]); }
    if (said[i].known) {
      int64_t s = said[i].s, n = said[i].n; int64_t want = s > 100000000 ? 60000000000 : s < -100000000 ? -1 : s * 1000000000 + n;
      if (want >= 0) vf_assert(waited == (want > 60000000000 ? 60000000000 : want), "the server's interval is kept, up to a minute");
      else vf_assert(waits > 0 && waited > 0 && waited <= 60000000000, "negative intervals are replaced");
      vf_reach("server's interval");
    } else { vf_assert(waits > 0 && waited > 0 && waited <= 60000000000, "without a suggestion there is still a wait"); vf_reach("own interval"); }
  }
}
