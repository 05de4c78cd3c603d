// Handing results to secure aggregation. The client of the protocol is played by the harness (the real one is S04-S08).
#include "../common/http.h"
#include "fcp/client/secagg_event_publisher.h"
#include "fcp/client/secagg_runner.h"
#include "fcp/secagg/client/secagg_client_state.h"
#include "fcp/secagg/shared/secagg_vector.h"
namespace sa = fcp::secagg;
using namespace fcp::client;
namespace {
struct Play {  // what the protocol does
  int created = 0, started = 0, sent = 0, asked = 0, max = 0, min = 0; bool have_input = false, aborted = false, done = false, failing_start = false, failing_input = false;
  std::vector<sa::InputVectorSpecification> specs; std::unique_ptr<sa::SecAggVectorMap> input; std::unique_ptr<sa::SendToServerInterface> sender; std::unique_ptr<sa::StateTransitionListenerInterface> listener;
  int aborts = 0; int trouble = 0; absl::StatusCode code = absl::StatusCode::kOk;
}* g;
}
namespace fcp::secagg {
SecAggClient::SecAggClient(int max, int min, std::vector<InputVectorSpecification> specs, std::unique_ptr<SecurePrng>, std::unique_ptr<SendToServerInterface> sender, std::unique_ptr<StateTransitionListenerInterface> l, std::unique_ptr<AesPrngFactory>, std::atomic<std::string*>*) : abort_signal_(nullptr), async_abort_(&abort_signal_) { g->created++; g->max = max; g->min = min; g->specs = std::move(specs); g->sender = std::move(sender); g->listener = std::move(l); }
Status SecAggClient::Start() { g->started++; g->listener->Transition(ClientState::R0_ADVERTISE_KEYS); if (g->failing_start) return FCP_STATUS(FAILED_PRECONDITION); ClientToServerWrapperMessage m; m.mutable_advertise_keys(); g->sender->Send(&m); return FCP_STATUS(OK); }
Status SecAggClient::SetInput(std::unique_ptr<SecAggVectorMap> m) { if (g->failing_input) return FCP_STATUS(INVALID_ARGUMENT); g->have_input = true; g->input = std::move(m); return FCP_STATUS(OK); }
Status SecAggClient::Abort() { return Abort(""); }
Status SecAggClient::Abort(const std::string&) { g->aborts++; g->aborted = true; return FCP_STATUS(OK); }
bool SecAggClient::IsAborted() const { return g->aborted; }
bool SecAggClient::IsCompletedSuccessfully() const { return g->done; }
std::string SecAggClient::State() const { return "state"; }
StatusOr<std::string> SecAggClient::ErrorMessage() const { if (!g->aborted) return FCP_STATUS(FAILED_PRECONDITION); return std::string("why"); }
StatusOr<bool> SecAggClient::ReceiveMessage(const ServerToClientWrapperMessage&) {
  vf_assert(!g->aborted && !g->done, "nothing is delivered after the end");
  switch (vf_choice(4, "effect of the message")) {
    case 0: { ClientToServerWrapperMessage m; g->sender->Send(&m); return true; }
    case 1: g->done = true; return false;
    case 2: g->aborted = true; g->trouble++; g->code = absl::StatusCode::kCancelled; g->listener->Transition(ClientState::ABORTED); return false;
    default: g->trouble++; g->code = absl::StatusCode::kFailedPrecondition; return FCP_STATUS(FAILED_PRECONDITION) << "wrong message";
  }
}
}
namespace {
struct Out : SecAggSendToServerBase { void Send(sa::ClientToServerWrapperMessage*) override { g->sent++; } };
struct Del : SecAggProtocolDelegate {
  std::map<std::string, uint64_t> mod; int replies, aborted = 0;
  absl::StatusOr<uint64_t> GetModulus(const std::string& k) override { auto i = mod.find(k); if (i == mod.end()) return absl::InternalError("unknown"); return i->second; }
  absl::StatusOr<sa::ServerToClientWrapperMessage> ReceiveServerMessage() override {
    if (++g->asked > replies) vf_end();
    if (vf_choice(2, "no message")) { g->trouble++; g->code = absl::StatusCode::kUnavailable; return absl::UnavailableError("lost"); }
    return sa::ServerToClientWrapperMessage();
  }
  void Abort() override { aborted++; }
  size_t last_received_message_size() override { return 5; }
};
struct Pub : SecAggEventPublisher {
  void PublishStateTransition(sa::ClientState, size_t, size_t) override {}
  void PublishError() override {}
  void PublishAbort(bool, const std::string&) override {}
  void set_execution_session_id(int64_t) override {}
};
}
extern "C" void vf_main() {
  int tensors = (int)vf_param("tensors", 1), replies = (int)vf_param("replies", 1), any = (int)vf_param("any_modulus", 0), odd = (int)vf_param("odd", 0);
  Play play; g = &play; VfRunner run; Pub pub; auto out = std::make_unique<Out>(); auto del = std::make_unique<Del>(); Del* d = del.get(); d->replies = replies;
  ComputationResults results; bool valid = true; struct T { std::vector<uint64_t> v; uint64_t mod; }; std::map<std::string, T> want;
  if (vf::flag("checkpoint")) results["checkpoint"] = std::string("abc");
  for (int i = 0; i < tensors; i++) {
    std::string name(1, char('p' + i)); QuantizedTensor q; T t; bool free = i == odd;
    int n = free ? vf_choice(4, "length") : 2;
    for (int k = 0; k < n; k++) { uint64_t x = vf_u64("value"); q.values.push_back(x); t.v.push_back(x); }
    if (any) t.mod = vf_u64("modulus");
    else { static const uint64_t M[] = {0, 1, 2, 3, 256, 1ull << 62, (1ull << 62) + 1, ~0ull, 5, (1ull << 62) - 1, 1ull << 63}; t.mod = M[free ? vf_choice(11, "modulus") : 3]; }
    int64_t len = 1; int dims = free ? vf_choice(3, "dimensions") : 1;
    for (int k = 0; k < dims; k++) { int64_t s = free ? (int64_t)(vf_u8("size") % 6) : 2; q.dimensions.push_back(s); len *= s; }
    bool known = !free || vf_choice(4, "unknown name") != 3; if (known) d->mod[name] = t.mod;
    bool ok = known && t.mod > 1 && t.mod <= (1ull << 62) && n > 0 && len == n; for (auto x : t.v) ok = ok && x < t.mod;
    valid = valid && ok; results[name] = std::move(q); want[name] = t;
  }
  if (any) vf_assume(!valid);
  run.abort = vf::flag("interrupted"); play.failing_start = vf_choice(3, "failing start") == 2; play.failing_input = !play.failing_start && vf_choice(3, "failing input") == 2;
  SecAggRunnerImpl r(std::move(out), std::move(del), &pub, &run.log, &run.r, 12, 7);
  absl::Status s = r.Run(std::move(results));
  if (!valid) { vf_assert(!s.ok() && play.sent == 0 && play.started == 0, "invalid inputs fail the run before anything is sent"); vf_reach("invalid"); return; }
  if (run.abort) { vf_assert(s.code() == absl::StatusCode::kCancelled && play.sent == 0, "an interrupted run is reported as such"); vf_reach("interrupted"); return; }
  if (play.failing_start || play.failing_input) { vf_assert(!s.ok() && !play.done && play.asked == 0, "a protocol that cannot start is reported"); vf_reach("cannot start"); return; }
  vf_assert(play.have_input && play.input && play.input->size() == want.size() && play.specs.size() == want.size(), "one vector per tensor");
  for (auto& w : want) {
    auto i = play.input->find(w.first); vf_assert(i != play.input->end(), "every tensor is handed over"); auto v = i->second.GetAsUint64Vector();
    vf_assert(v.size() == w.second.v.size() && i->second.modulus() == w.second.mod, "length and modulus are kept"); for (size_t k = 0; k < v.size(); k++) vf_assert(v[k] == w.second.v[k], "the values are handed over unchanged");
    int found = 0; for (auto& sp : play.specs) if (sp.name() == w.first) { found++; vf_assert(sp.length() == (int)w.second.v.size() && sp.modulus() == w.second.mod, "the description matches the vector"); }
    vf_assert(found == 1, "every vector is described once");
  }
  vf_assert(play.max == 12 && play.min == 7, "the group's limits are handed over");
  vf_assert(s.ok() == play.done && s.ok() == (play.trouble == 0), "success means the protocol completed");
  if (s.ok()) vf_reach("completed"); else { vf_assert(s.code() == play.code, "the failure is reported"); vf_reach("failed"); }
}
