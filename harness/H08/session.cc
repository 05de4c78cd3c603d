// Sessions of the protocol against a server that may fail at any request.
#include "../common/flags.h"
#include "../common/http.h"
#include "fcp/base/clock.h"
#include "fcp/base/digest.h"
#include "fcp/client/http/http_client_util.h"
#include "fcp/client/http/http_federated_protocol.h"
#include "fcp/confidentialcompute/client_payload.h"
#include "fcp/confidentialcompute/crypto.h"
#include "fcp/protos/confidentialcompute/blob_header.pb.h"
#include "fcp/protos/federatedcompute/aggregations.pb.h"
using namespace fcp::client; using namespace fcp::client::http;
using google::longrunning::Operation;
namespace fc = google::internal::federatedcompute::v1; namespace cc = fcp::confidential_compute; using absl::StatusCode; using FP = FederatedProtocol;
namespace {
struct Ticker : fcp::Clock { absl::Time Now() override { return absl::Now(); } void Sleep(absl::Duration) override {} absl::Time NowLocked() override { return absl::Now(); } void ScheduleWakeup(absl::Time) override {} };
struct Publisher : SecAggEventPublisher { void PublishStateTransition(::fcp::secagg::ClientState, size_t, size_t) override {} void PublishError() override {} void PublishAbort(bool, const std::string&) override {} void set_execution_session_id(int64_t) override {} };
enum Kind { SIMPLE, SECAGG, CONFIDENTIAL };
struct Task { std::string id; Kind kind; bool broken, nofetch; };  // names derive from the id
int bad; StatusCode cause; bool what; const Task* current; std::string result; bool lazy_ops, confidential_on, compress;
bool verified, encrypted, upload_tried, upload_ok, submitted, aborted; int reports, starts, eet_reports, secagg_runs, secagg_vectors, ciphertexts; StatusCode abort_code; std::string blob_header, secagg_checkpoint; bool secagg_has_checkpoint; int report_code;
std::vector<Task> tasks;
bool fail(const char* n) { if (!bad || !vf_choice(2, n)) return false; bad--; return true; }
StatusCode any_code() { uint32_t c = vf_u32("error code"); vf_assume(c >= 1 && c <= 16); return (StatusCode)c; }
std::string prefix(const char* s) { return std::string("https://") + s; }
void fill(fc::TaskAssignment* a, const Task& t) {
  if (!t.broken) a->mutable_aggregation_data_forwarding_info()->set_target_uri_prefix(prefix("agg0"));
  if (t.kind == SIMPLE) a->mutable_aggregation_info(); else if (t.kind == SECAGG) a->mutable_secure_aggregation_info()->set_minimum_clients_in_server_visible_aggregate(3); else a->mutable_confidential_aggregation_info()->mutable_data_access_policy()->mutable_inline_resource()->set_data("policy" + t.id);
  a->set_session_id("session" + t.id); a->set_aggregation_id("agg" + t.id); a->set_authorization_token("auth" + t.id); a->set_task_name("task" + t.id);
  if (t.nofetch) a->mutable_plan()->set_uri(""); else a->mutable_plan()->set_uri("https://res/plan" + t.id); a->mutable_init_checkpoint()->mutable_inline_resource()->set_data("ckpt" + t.id);
}
// A response holding an operation; the ways to fail depend on the stage.
template <class M> void operation(VfHandle& h, HttpRequestCallback& cb, const char* n, const M& m, bool polled) {
  Operation op; op.set_name("operations/x"); int way = bad ? (int)vf_choice(polled || !lazy_ops ? 4 : 5, n) : 0;
  if (way == 4) { vf_respond(h, cb, 200, {}, op.SerializeAsString()); return; }  // still running: polled later
  op.set_done(true); if (way) bad--;
  if (way == 1) { StatusCode c = any_code(); cause = c; op.mutable_error()->set_code((int)c); }
  else if (way == 2) { cause = StatusCode::kInvalidArgument; vf_respond(h, cb, 200, {}, std::string("\xff")); return; }
  else if (way == 3) { cause = StatusCode::kInvalidArgument; op.mutable_response()->set_type_url("type.googleapis.com/other"); op.mutable_response()->set_value("x"); }
  else op.mutable_response()->PackFrom(m);
  vf_respond(h, cb, 200, {}, op.SerializeAsString());
}
int http_error(VfHandle& h, HttpRequestCallback& cb) { int c = 400 + (int)vf_u8("http code"); vf_assume(c < 600); vf_respond(h, cb, c, {}, ""); return c; }
bool refuse(VfHandle& h, HttpRequestCallback& cb, const char* n) { if (!fail(n)) return false; cause = ConvertHttpCodeToStatus(http_error(h, cb)).code(); return true; }
int eet_kind, spec_kind; std::string pending, tok;  // which operation is running; what the client is called from then on
std::string undo(const std::string& s) { return compress && s.size() > 1 && s[0] == '\x1f' && s[1] == 'z' ? s.substr(2) : s; }
bool ends(const std::string& s, const char* e) { std::string x = e; return s.size() >= x.size() && s.compare(s.size() - x.size(), x.size(), x) == 0; }
const Task* of(const std::string& uri, const char* what) { for (auto& t : tasks) if (uri.find(what + t.id) != std::string::npos) return &t; return nullptr; }
void start_response(VfHandle& h, HttpRequestCallback& cb, bool polled) {
  if (pending == "assign") { fc::StartTaskAssignmentResponse r; int k = (int)vf_choice(polled ? 1 : 3, "assignment"); if (k == 1) r.mutable_rejection_info(); else if (k == 0) fill(r.mutable_task_assignment(), tasks[0]); if (k == 2) { if (bad) bad--; cause = StatusCode::kUnimplemented; } if (k) { Operation op; op.set_name("operations/x"); op.set_done(true); op.mutable_response()->PackFrom(r); vf_respond(h, cb, 200, {}, op.SerializeAsString()); } else operation(h, cb, "assign operation", r, polled); return; }
  const Task& t = *current;
  if (pending == "secagg") { fc::StartSecureAggregationResponse r; r.set_client_token("token" + t.id); r.mutable_secagg_protocol_forwarding_info()->set_target_uri_prefix(prefix("agg1")); r.mutable_masked_result_resource()->mutable_data_upload_forwarding_info()->set_target_uri_prefix(prefix("up")); r.mutable_masked_result_resource()->set_resource_name("masked"); r.mutable_nonmasked_result_resource()->mutable_data_upload_forwarding_info()->set_target_uri_prefix(prefix("up")); r.mutable_nonmasked_result_resource()->set_resource_name("plain"); r.mutable_protocol_execution_info()->set_expected_number_of_clients(7); r.mutable_protocol_execution_info()->set_minimum_surviving_clients_for_reconstruction(5); operation(h, cb, "secagg operation", r, polled); return; }
  // The answer may come without a name for the client or without addresses.
  int odd = vf_param("odd_start", 0) ? (int)vf_choice(t.kind == CONFIDENTIAL ? 3 : 4, "answer") : 0; if (odd == 1 || odd == 2) cause = StatusCode::kInvalidArgument; if (odd == 3) { tok = "auth"; vf_reach("no token"); }
  if (t.kind == CONFIDENTIAL) { fc::StartConfidentialAggregationDataUploadResponse r; if (odd != 1) r.mutable_aggregation_protocol_forwarding_info()->set_target_uri_prefix(prefix("agg1")); if (odd != 2) r.mutable_resource()->mutable_data_upload_forwarding_info()->set_target_uri_prefix(prefix("up")); r.mutable_resource()->set_resource_name("res" + t.id); r.set_client_token("token" + t.id); fc::ConfidentialEncryptionConfig c; c.set_public_key("key" + t.id); r.mutable_encryption_config()->mutable_inline_resource()->set_data(c.SerializeAsString()); operation(h, cb, "upload operation", r, polled); }
  else { fc::StartAggregationDataUploadResponse r; if (odd != 1) r.mutable_aggregation_protocol_forwarding_info()->set_target_uri_prefix(prefix("agg1")); if (odd != 2) r.mutable_resource()->mutable_data_upload_forwarding_info()->set_target_uri_prefix(prefix("up")); r.mutable_resource()->set_resource_name("res" + t.id); if (odd != 3) r.set_client_token("token" + t.id); operation(h, cb, "upload operation", r, polled); }
}
void serve(const VfSeen& s, VfHandle& h, HttpRequestCallback& cb) {
  std::string u = s.uri, host = u.substr(8, u.find('/', 8) - 8), path = u.substr(8 + host.size()), body = undo(s.body); size_t q = path.find('?'); std::string query = q == std::string::npos ? "" : path.substr(q); if (q != std::string::npos) path = path.substr(0, q);
  if (host == "res") { if (refuse(h, cb, "resource fails")) return; const Task* t = of(path, "plan"); vf_respond(h, cb, 200, {}, t ? "plan" + t->id : "eetplan"); return; }
  if (path == "/v1/eligibilityevaltasks/pop:request") {
    vf_assert(host == "entry", "the session starts at the entry point"); if (refuse(h, cb, "check-in fails")) return;
    fc::EligibilityEvalTaskResponse r; r.set_session_id("pre"); r.mutable_task_assignment_forwarding_info()->set_target_uri_prefix(prefix("assign")); r.mutable_retry_window_if_accepted()->mutable_delay_min()->set_seconds(1000); r.mutable_retry_window_if_accepted()->mutable_delay_max()->set_seconds(1000); r.mutable_retry_window_if_rejected()->mutable_delay_min()->set_seconds(100); r.mutable_retry_window_if_rejected()->mutable_delay_max()->set_seconds(100);
    if (eet_kind == 0) r.mutable_no_eligibility_eval_configured(); else if (eet_kind == 1) { auto* t = r.mutable_eligibility_eval_task(); t->set_execution_id("exec"); t->mutable_plan()->set_uri("https://res/eet"); t->mutable_init_checkpoint()->mutable_inline_resource()->set_data("eetckpt"); } else if (eet_kind == 2) r.mutable_rejection_info(); else if (eet_kind == 3) { cause = StatusCode::kUnimplemented; } else if (eet_kind == 4) { r.mutable_no_eligibility_eval_configured(); r.clear_task_assignment_forwarding_info(); cause = StatusCode::kInvalidArgument; } else { cause = StatusCode::kInvalidArgument; vf_respond(h, cb, 200, {}, std::string("\xff")); return; }
    vf_respond(h, cb, 200, {}, r.SerializeAsString()); return;
  }
  if (path == "/v1/populations/pop/eligibilityevaltasks/pre:reportresult") { eet_reports++; if (fail("eligibility report fails")) http_error(h, cb); else vf_respond(h, cb, 200, {}, ""); return; }
  if (path == "/v1/populations/pop/taskassignments/pre:start") { vf_assert(host == "assign", "tasks are requested where the server says"); starts++; if (refuse(h, cb, "assignment fails")) return; pending = "assign"; start_response(h, cb, false); return; }
  if (path == "/v1/populations/pop/taskassignments/pre:performmultiple") { vf_assert(host == "assign", "tasks are requested where the server says"); if (refuse(h, cb, "assignments fail")) return; if (fail("unreadable")) { cause = StatusCode::kInvalidArgument; vf_respond(h, cb, 200, {}, std::string("\xff")); return; } fc::PerformMultipleTaskAssignmentsResponse r; for (size_t i = 1; i < tasks.size(); i++) fill(r.add_task_assignments(), tasks[i]); vf_respond(h, cb, 200, {}, r.SerializeAsString()); return; }
  if (path == "/v1/operations/x") { vf_assert(host == (pending == "assign" ? "assign" : "agg0"), "operations are polled where they were started"); if (refuse(h, cb, "poll fails")) return; start_response(h, cb, true); return; }
  if (path == "/v1/operations/x:cancel") { vf_respond(h, cb, 200, {}, ""); return; }
  vf_assert(current != nullptr, "nothing is sent without a task"); const Task& t = *current;
  if (path == "/v1/populations/pop/taskassignments/session" + t.id + ":reportresult") { reports++; fc::ReportTaskResultRequest r; vf_assert(host == "assign" && r.ParseFromString(body) && r.aggregation_id() == "agg" + t.id && r.task_name() == "task" + t.id && r.client_stats().computation_execution_duration().seconds() == 5, "the report names its task"); report_code = (int)r.computation_status_code(); if (report_code != 0) { if (refuse(h, cb, "report fails")) return; } else if (fail("report fails")) { http_error(h, cb); return; } vf_respond(h, cb, 200, {}, ""); return; }
  std::string up = "/v1/" + std::string(t.kind == CONFIDENTIAL ? "confidentialaggregations" : "aggregations") + "/agg" + t.id + "/clients/";
  if (path == up + "auth" + t.id + ":startdataupload" && t.kind != SECAGG) { vf_assert(host == "agg0", "uploads are requested where the task says"); starts++; if (refuse(h, cb, "start fails")) return; pending = "upload"; start_response(h, cb, false); return; }
  if (path == "/v1/secureaggregations/agg" + t.id + "/clients/auth" + t.id + ":start" && t.kind == SECAGG) { vf_assert(host == "agg0", "aggregation starts where the task says"); starts++; if (refuse(h, cb, "start fails")) return; pending = "secagg"; start_response(h, cb, false); return; }
  if (path == "/upload/v1/media/res" + t.id && t.kind != SECAGG) {
    vf_assert(host == "up" && query.find("upload_protocol=raw") != std::string::npos, "data goes to the upload address"); vf_assert(!upload_tried && starts && cause == StatusCode::kOk, "data is uploaded once, after the server agreed"); upload_tried = true;
    if (t.kind == SIMPLE) vf_assert(body == result, "exactly the result is uploaded");
    else { vf_assert(verified && encrypted, "confidential data is only uploaded once the recipient is verified and the data encrypted"); absl::string_view d = s.body; auto p = cc::DecodeAndConsumeClientPayloadHeader(d); vf_assert(p.ok() && std::string(d) == "CT" && p->encrypted_symmetric_key == "SK" && p->encapsulated_public_key == "EK" && p->serialized_blob_header == blob_header && p->is_gzip_compressed, "what is uploaded is the encrypted data and what is needed to open it"); }
    if (refuse(h, cb, "upload fails")) return; upload_ok = true; vf_respond(h, cb, 200, {}, ""); return;
  }
  if (path == up + tok + t.id + ":submit") { vf_assert(host == "agg1" && upload_ok && !submitted && !aborted, "results are submitted once, after the upload"); submitted = true; fc::SubmitAggregationResultRequest r; vf_assert(r.ParseFromString(body) && r.resource_name() == "res" + t.id, "the submission names the upload"); if (refuse(h, cb, "submit fails")) return; vf_respond(h, cb, 200, {}, ""); return; }
  if (path == up + tok + t.id + ":abort") { vf_assert(host == "agg1" && !submitted && !aborted, "aborted at most once, never after submission"); aborted = true; fc::AbortAggregationRequest r; fc::AbortConfidentialAggregationRequest r2; vf_assert(t.kind == CONFIDENTIAL ? r2.ParseFromString(body) : r.ParseFromString(body), "readable"); abort_code = (StatusCode)(t.kind == CONFIDENTIAL ? r2.status().code() : r.status().code()); if (fail("abort fails")) http_error(h, cb); else vf_respond(h, cb, 200, {}, ""); return; }
  vf_logs(u.c_str()); vf_fail("requests only go to the task's own addresses");
}
struct Verifier : attestation::AttestationVerifier {
  absl::StatusOr<cc::OkpKey> Verify(const absl::Cord& policy, const fc::ConfidentialEncryptionConfig& c) override { vf_assert(current && current->kind == CONFIDENTIAL && std::string(policy) == "policy" + current->id && c.public_key() == "key" + current->id, "the task's own policy and key are verified"); if (fail("verification fails")) { cause = any_code(); return absl::Status(cause, "verification"); } verified = true; cc::OkpKey k; k.key_id = "kid"; return k; }
};
struct Runner : SecAggRunner { absl::Status Run(ComputationResults r) override { secagg_runs++; for (auto& x : r) if (std::holds_alternative<QuantizedTensor>(x.second)) secagg_vectors++; else vf_fail("only vectors enter secure aggregation"); if (fail("secure aggregation fails")) { cause = any_code(); return absl::Status(cause, "secagg"); } return absl::OkStatus(); } };
struct Factory : SecAggRunnerFactory { std::unique_ptr<SecAggRunner> CreateSecAggRunner(std::unique_ptr<SecAggSendToServerBase>, std::unique_ptr<SecAggProtocolDelegate>, SecAggEventPublisher*, LogManager*, InterruptibleRunner*, int64_t n, int64_t m) override { vf_assert(n == 7 && m == 5, "secure aggregation runs with the server's parameters"); return std::make_unique<Runner>(); } };
struct Settings : VfFlags {
  int64_t federated_training_transient_errors_retry_delay_secs() const override { return 5000; } float federated_training_transient_errors_retry_delay_jitter_percent() const override { return 0; }
  int64_t federated_training_permanent_errors_retry_delay_secs() const override { return 50000; } float federated_training_permanent_errors_retry_delay_jitter_percent() const override { return 0; }
  std::vector<int32_t> federated_training_permanent_error_codes() const override { return {5, 3, 16}; }
  bool enable_confidential_aggregation() const override { return confidential_on; } bool disable_http_request_body_compression() const override { return !compress; }
};
bool permanent(StatusCode c) { return c == StatusCode::kNotFound || c == StatusCode::kInvalidArgument || c == StatusCode::kUnauthenticated; }
int64_t T = 1000000, now = T, received = -1; void pass() { now += 10; vf::now = absl::FromUnixSeconds(now); }
enum Window { REJECTED, ACCEPTED, TRANSIENT, PERMANENT };
void advises(HttpFederatedProtocol& p, Window w, const char* m) { if (what) return; auto r = p.GetLatestRetryWindow(); int64_t e = w == REJECTED ? received + 100 - now : w == ACCEPTED ? received + 1000 - now : w == TRANSIENT ? 5000 : 50000; vf_assert(r.delay_min().seconds() == e && r.delay_max().seconds() == e && r.delay_min().nanos() == 0 && r.delay_max().nanos() == 0, m); }
ComputationResults results_of(const Task& t) { ComputationResults r; if (t.kind == SECAGG) { QuantizedTensor q; q.values = {1}; r["v"] = std::move(q); if (vf_param("mixed", 0)) r["c"] = TFCheckpoint(result); } else r["c"] = TFCheckpoint(result); return r; }
// Reports one task; returns how it counts for the retry time: 0 reported, 1 failed for good.
int report(HttpFederatedProtocol& p, const Task& t, bool multiple) {
  current = &t; tok = "token"; cause = StatusCode::kOk; reports = starts = secagg_runs = secagg_vectors = ciphertexts = 0; verified = encrypted = upload_tried = upload_ok = submitted = aborted = false; std::optional<std::string> id; if (multiple) id = "agg" + t.id;
  int how = (int)vf_choice(3, "outcome"); absl::Status s; result = "r" + vf::str(1, 1, "result"); pass();
  if (how == 0) s = p.ReportCompleted(results_of(t), absl::Seconds(5), id); else s = p.ReportNotCompleted(how == 1 ? engine::PhaseOutcome::ERROR : engine::PhaseOutcome::INTERRUPTED, absl::Seconds(5), id);
  vf_assert(s.code() == cause, "a failed report returns the code of what failed"); vf_assert(reports == 1 && report_code == (how == 0 ? 0 : how == 1 ? 13 : 1), "each task is reported once with how it ended"); current = nullptr; pass();
  if (how) { vf_assert(!starts && !upload_tried && !submitted && !secagg_runs && !aborted, "a task that did not complete uploads nothing"); vf_reach("not completed"); return 0; }
  if (t.kind == SECAGG) { vf_assert(!upload_tried && !submitted && (cause != StatusCode::kOk || secagg_runs == 1) && (!secagg_runs || secagg_vectors == 1), "vectors go through secure aggregation only"); if (cause == StatusCode::kOk) vf_reach("secure aggregation"); return 0; }
  if (cause == StatusCode::kOk) { vf_assert(upload_ok && submitted && !aborted, "a completed report was uploaded and submitted"); vf_reach(t.kind == SIMPLE ? "uploaded" : "uploaded encrypted"); return 0; }
  if (submitted) { vf_reach("submission failed"); return 0; }
  // Before the server agreed there is nothing to abort; an upload the server itself aborted needs no notice.
  bool begun = upload_tried || verified || (t.kind == CONFIDENTIAL && aborted); vf_assert(aborted == (begun && !(upload_tried && cause == StatusCode::kAborted)), "a failed upload is aborted"); if (aborted) { vf_assert(abort_code == cause, "the server learns why"); vf_reach("aborted"); } else vf_reach("not begun"); return 1;
}
}
namespace fcp { namespace confidential_compute {
MessageEncryptor::MessageEncryptor() {}
absl::StatusOr<EncryptMessageResult> MessageEncryptor::Encrypt(absl::string_view plain, absl::string_view key, absl::string_view data) const {
  vf_assert(verified && std::string(key) == "key" + current->id, "data is encrypted for the verified recipient"); vf_assert(undo(std::string(plain)) == result || std::string(plain) == "\x1fz" + result, "the result is encrypted"); blob_header = std::string(data); fcp::confidentialcompute::BlobHeader b; vf_assert(b.ParseFromString(blob_header) && b.key_id() == "kid" && !b.blob_id().empty() && b.access_policy_sha256() == fcp::ComputeSHA256(std::string("policy" + current->id)), "the encrypted data is bound to the task's policy and key");
  if (fail("encryption fails")) { cause = any_code(); return absl::Status(cause, "encryption"); } encrypted = true; EncryptMessageResult r; r.ciphertext = "CT"; r.encapped_key = "EK"; r.encrypted_symmetric_key = "SK"; return r;
}
} }
extern "C" void vf_main() {
  what = vf_param("what", 0); bad = (int)vf_param("faults", 1); lazy_ops = vf_param("pending", 0); confidential_on = vf_param("confidential", 1); compress = vf_param("compress", 0); int single = (int)vf_param("single", 1), multi = (int)vf_param("multi", 0), kind = (int)vf_param("kind", 0);
  vf::now = absl::FromUnixSeconds(now); VfLog log; Settings flags; VfHttpClient client; Publisher pub; Ticker clock; bool stop = false;
  client.answer = [&](int i, VfHandle& h, HttpRequestCallback& cb) { serve(client.seen[i], h, cb); };
  HttpFederatedProtocol p(&clock, &log, &flags, &client, std::make_unique<Factory>(), &pub, nullptr, std::make_unique<Verifier>(), "https://entry", "apikey", "pop", "", "version", "measurement", [&] { return stop; }, absl::BitGen(), InterruptibleRunner::TimingConfig{absl::Seconds(1), absl::Seconds(1), absl::Seconds(1)});
  tasks.push_back(Task{"0", (Kind)kind, false, false}); for (int i = 1; i <= multi; i++) { Task t{std::string(1, (char)('0' + i)), (Kind)((kind + i) % 3), false, false}; if (vf_param("broken", 0)) { int b = (int)vf_choice(3, "damage"); t.broken = b == 1; t.nofetch = b == 2; } if (!confidential_on && t.kind == CONFIDENTIAL) t.kind = SIMPLE; tasks.push_back(t); }
  if (vf_param("broken", 0)) { int b = (int)vf_choice(3, "damage"); tasks[0].broken = b == 1; tasks[0].nofetch = b == 2; }
  advises(p, TRANSIENT, "before anything happened a transient delay is advised");
  eet_kind = (int)vf_choice(vf_param("odd", 0) ? 6 : 2, "eligibility"); cause = StatusCode::kOk; int before = bad; auto e = p.EligibilityEvalCheckin([](const FP::EligibilityEvalTask&) {}); bool answered = !(before != bad && client.seen.size() == 1) && eet_kind != 5; if (answered) received = now; pass();
  vf_assert(e.status().code() == cause, "a failed check-in returns the code of what failed");
  if (!e.ok()) { vf_reach("check-in failed"); advises(p, permanent(cause) ? PERMANENT : answered ? REJECTED : TRANSIENT, "a failed check-in advises the delay for its error"); return; }
  advises(p, REJECTED, "without an assignment the rejected window is advised"); if (eet_kind == 2) { vf_assert(std::holds_alternative<FP::Rejection>(*e), "rejections are returned"); vf_reach("rejected"); return; }
  if (eet_kind == 1) { vf_assert(std::holds_alternative<FP::EligibilityEvalTask>(*e), "the eligibility task is returned"); auto& t = std::get<FP::EligibilityEvalTask>(*e); vf_assert(t.execution_id == "exec" && std::string(std::get<absl::Cord>(t.payloads.plan)) == "eetplan" && std::string(std::get<absl::Cord>(t.payloads.checkpoint)) == "eetckpt", "the eligibility task is complete"); } else vf_assert(std::holds_alternative<FP::EligibilityEvalDisabled>(*e), "no eligibility task");
  int good = 0, failed = 0, total = 0; std::vector<const Task*> run; Window last = REJECTED; bool counted = true;
  if (multi) {
    cause = StatusCode::kOk; int had = bad; int fetched = -1; auto m = p.PerformMultipleTaskAssignments({"x"}, [&](size_t n) { fetched = (int)n; }); pass();
    if (!m.ok()) { vf_assert(m.status().code() == cause && cause != StatusCode::kOk, "failed assignments return the code of what failed"); advises(p, permanent(cause) ? PERMANENT : REJECTED, "failed assignments advise the delay for their error"); vf_reach("assignments failed"); counted = false; }
    else { vf_assert(m->task_assignments.size() == (size_t)multi, "every task is answered"); for (int i = 1; i <= multi; i++) { auto& t = tasks[i]; auto it = m->task_assignments.find("task" + t.id); vf_assert(it != m->task_assignments.end(), "every task is answered"); if (!t.broken) total++; if (it->second.ok()) { vf_assert(!t.broken && !t.nofetch && it->second->aggregation_session_id == "agg" + t.id && std::string(std::get<absl::Cord>(it->second->payloads.plan)) == "plan" + t.id && std::string(std::get<absl::Cord>(it->second->payloads.checkpoint)) == "ckpt" + t.id && it->second->sec_agg_info.has_value() == (t.kind == SECAGG) && it->second->confidential_agg_info.has_value() == (t.kind == CONFIDENTIAL), "each task gets its own content"); if (t.kind == CONFIDENTIAL) vf_assert(std::string(it->second->confidential_agg_info->data_access_policy) == "policy" + t.id, "each task gets its own policy"); run.push_back(&t); } else { vf_assert(t.broken || t.nofetch || had != bad, "usable tasks are assigned"); vf_assert(it->second.status().code() == (t.broken || t.nofetch ? StatusCode::kInvalidArgument : cause), "a failed task returns the code of what failed"); vf_reach("task failed"); } } advises(p, REJECTED, "assigned but unreported tasks advise the rejected window"); vf_reach("assigned several"); }
  }
  if (single) {
    cause = StatusCode::kOk; std::optional<google::internal::federatedml::v2::TaskEligibilityInfo> info; if (eet_kind == 1) info.emplace(); bool cb = false; auto c = p.Checkin(info, [&](const FP::TaskAssignment&) { cb = true; }); pass(); auto& t = tasks[0];
    if (!c.ok()) { if (t.nofetch || t.broken) { if (cause == StatusCode::kOk) cause = StatusCode::kInvalidArgument; } vf_assert(c.status().code() == cause && cause != StatusCode::kOk, "a failed assignment returns the code of what failed"); advises(p, permanent(cause) ? PERMANENT : REJECTED, "a failed assignment advises the delay for its error"); vf_reach("assignment failed"); last = permanent(cause) ? PERMANENT : REJECTED; if (run.empty()) return; counted = false; }
    else if (std::holds_alternative<FP::Rejection>(*c)) { advises(p, REJECTED, "a rejection advises the rejected window"); vf_reach("assignment rejected"); counted = false; last = REJECTED; }
    else { vf_assert(cause == StatusCode::kOk && cb, "assignments are accepted without an error"); auto& a = std::get<FP::TaskAssignment>(*c); vf_assert(!t.broken && !t.nofetch && a.task_name == "task" + t.id && a.aggregation_session_id == "agg" + t.id && std::string(std::get<absl::Cord>(a.payloads.plan)) == "plan" + t.id && a.sec_agg_info.has_value() == (t.kind == SECAGG), "the assigned task is complete"); total++; counted = true; if (!multi) advises(p, ACCEPTED, "an assigned task advises the accepted window"); else advises(p, REJECTED, "unreported tasks advise the rejected window"); run.push_back(&t); vf_reach("assigned"); }
    vf_assert(eet_reports == (eet_kind == 1), "the eligibility result is reported once");
  }
  if (what) { current = nullptr; size_t n = client.seen.size(); vf_assert(p.ReportCompleted(ComputationResults(), absl::Seconds(5), std::string("other")).code() == StatusCode::kInvalidArgument && p.ReportNotCompleted(engine::PhaseOutcome::ERROR, absl::Seconds(5), std::string("other")).code() == StatusCode::kInvalidArgument && client.seen.size() == n, "unknown tasks are not reported"); }
  for (auto* t : run) { int r = report(p, *t, t != &tasks[0]); (r ? failed : good)++; if (!counted) { if (last == PERMANENT || last == REJECTED) advises(p, last, "the outcome of the last assignment decides"); continue; } advises(p, failed == total ? PERMANENT : good == total ? ACCEPTED : !multi ? (failed ? PERMANENT : ACCEPTED) : REJECTED, "reports advise the window for how they ended"); vf_reach("reported"); }
}
