// Requests of the protocol, and the messages of the secure aggregation rounds.
#include "../common/http.h"
#include "fcp/base/clock.h"
#include "fcp/base/wall_clock_stopwatch.h"
#include "fcp/client/http/http_secagg_send_to_server_impl.h"
#include "fcp/client/http/protocol_request_helper.h"
using namespace fcp::client::http;
using google::longrunning::Operation;
namespace fc = google::internal::federatedcompute::v1;
namespace sa = fcp::secagg;
namespace {
struct Ticker : fcp::Clock {
  absl::Time Now() override { return absl::FromUnixSeconds(1000); }
  void Sleep(absl::Duration) override {}
  absl::Time NowLocked() override { return Now(); }
  void ScheduleWakeup(absl::Time) override {}
};
int count(const HeaderList& l, const std::string& n, const std::string& v, bool any = false) { int c = 0; for (auto& h : l) c += h.first == n && (any || h.second == v); return c; }
std::string body_of(HttpRequest& r) { std::string s; if (!r.HasBody()) return s; char b[64]; for (;;) { auto n = r.ReadBody(b, 64); if (!n.ok()) return s; s.append(b, *n); } }
// Splits "base?k=v&k=v" and compares the parameters as a set.
bool same_uri(const std::string& got, const std::string& want, std::vector<std::string> params) {
  size_t q = got.find('?');
  if (got.substr(0, q == std::string::npos ? got.size() : q) != want) return false;
  if (q == std::string::npos) return params.empty();
  std::string rest = got.substr(q + 1); size_t n = 0;
  for (;;) {
    size_t e = rest.find('&'); std::string p = rest.substr(0, e == std::string::npos ? rest.size() : e); bool hit = false;
    for (auto& x : params) if (!hit && x == p) { hit = true; x = "\1"; }
    if (!hit) return false;
    n++; if (e == std::string::npos) break; rest = rest.substr(e + 1);
  }
  return n == params.size();
}
void create() {
  static const char* BASES[] = {"", "https://host", "https://host/", "https://host/p", "https://host/p/", "http://host"};
  static const char* TAILS[] = {"", "/", "/v1/x", "v1/x"};
  int b = vf_choice(6, "address"), t = vf_choice(4, "path"); std::string letter(1, (char)('a' + vf_u8("letter") % 26));
  std::string base = BASES[b], tail = TAILS[t]; if (t >= 2) tail += letter;
  fc::ForwardingInfo info; info.set_target_uri_prefix(base); int headers = vf_choice(3, "headers"); std::string value = vf::str(0, 1, "value");
  if (headers > 0) (*info.mutable_extra_request_headers())["one"] = value;
  if (headers > 1) (*info.mutable_extra_request_headers())["two"] = "2";
  std::string key = vf::str(0, 1, "key"); bool compress = vf::flag("compression");
  auto made = ProtocolRequestCreator::Create(key, info, compress);
  vf_assert(made.ok() == !base.empty(), "a missing server address is an error");
  if (!made.ok()) { vf_assert(made.status().code() == absl::StatusCode::kInvalidArgument, "a missing address is refused as such"); vf_reach("no address"); return; }
  int kind = vf_choice(3, "kind"); std::string body = vf_choice(2, "body") ? std::string(3, (char)vf_u8("byte")) : ""; bool post = vf_choice(2, "method");
  bool proto = true; absl::StatusOr<std::unique_ptr<HttpRequest>> r; std::vector<std::string> params; std::string want_tail = tail; bool valid_tail = tail.empty() || tail[0] == '/';
  if (kind == 0) {
    proto = vf::flag("protobuf"); QueryParams p; int n = vf_choice(3, "parameters"); if (n > 0) { p["k"] = letter; params.push_back("k=" + letter); } if (n > 1) { p["j"] = "%20"; params.push_back("j=%20"); }
    r = (*made)->CreateProtocolRequest(tail, p, post ? HttpRequest::Method::kPost : HttpRequest::Method::kGet, body, proto);
  } else {
    body = ""; post = kind == 2; std::string name = "operations/" + letter; want_tail = "/v1/" + name + (post ? ":cancel" : ""); valid_tail = true;
    r = post ? (*made)->CreateCancelOperationRequest(name) : (*made)->CreateGetOperationRequest(name);
  }
  if (proto) params.push_back("%24alt=proto");
  // A path that does not start with a slash is refused; parameters are appended first.
  if (!valid_tail || b == 5 || (!post && !body.empty())) { vf_assert(!r.ok(), "requests without a proper path, to insecure addresses or with content that may not have any are refused"); vf_reach("refused"); return; }
  if (kind == 0 && !post && compress) { vf_reach("compressed request without content"); return; }
  if (want_tail.empty() && !params.empty()) { vf_reach("parameters without a path"); return; }
  vf_assert(r.ok(), "valid requests are created"); HttpRequest& q = **r;
  std::string root = base.back() == '/' ? base.substr(0, base.size() - 1) : base; std::string path = want_tail.empty() || want_tail[0] == '/' ? want_tail : "/" + want_tail; if (path.empty()) path = "/";
  vf_assert(same_uri(std::string(q.uri()), root + path, params), "the address is the server's, one slash, the path and the parameters");
  vf_assert(q.method() == (post ? HttpRequest::Method::kPost : HttpRequest::Method::kGet), "method");
  const HeaderList& h = q.extra_headers();
  vf_assert(count(h, "x-goog-api-key", key) == 1 && count(h, "x-goog-api-key", "", true) == 1, "the key is sent once");
  vf_assert(count(h, "one", value) == (headers > 0) && count(h, "two", "2") == (headers > 1), "the server's headers are sent once");
  vf_assert(count(h, "Content-Type", "application/x-protobuf") == (proto && !body.empty()) && count(h, "Content-Type", "", true) == (proto && !body.empty()), "the content type is given for messages with content");
  std::string sent = body_of(q); bool z = count(h, "Content-Encoding", "gzip") == 1;
  vf_assert(z ? compress && sent == "\x1fz" + body : sent == body, "the content is the given one, compressed only if allowed");
  vf_reach("created");
}
struct Round { const char* verb; };
template <class Req> bool parse(const std::string& s, Req* r) { return r->ParseFromString(s); }
void rounds() {
  VfHttpClient http; VfRunner run; Ticker clock; int64_t down = 0, up = 0; auto watch = fcp::WallClockStopwatch::Create();
  ProtocolRequestHelper helper(&http, &down, &up, watch.get(), &clock);
  absl::StatusOr<sa::ServerToClientWrapperMessage> holder = absl::UnknownError("nothing yet");
  fc::ForwardingInfo info; fc::ByteStreamResource masked, plain;
  int missing = vf_choice(4, "missing address");
  if (missing != 1) info.set_target_uri_prefix("https://agg");
  if (missing != 2) masked.mutable_data_upload_forwarding_info()->set_target_uri_prefix("https://masked/");
  if (missing != 3) plain.mutable_data_upload_forwarding_info()->set_target_uri_prefix("https://plain");
  masked.set_resource_name("m/1"); plain.set_resource_name("p 2");
  bool checkpoint = vf::flag("checkpoint"), no_compression = vf::flag("no compression"); std::string chk(1, (char)vf_u8("checkpoint byte")), id = "a/g", token = "t";
  int delayed = 0; bool aborted_runner = vf::flag("interrupted"); absl::Time deadline;
  auto made = HttpSecAggSendToServerImpl::Create("key", &clock, &helper, &run.r, [&](absl::Time t) { delayed++; deadline = t; return std::make_unique<fcp::client::InterruptibleRunner>(&run.log, [] { return false; }, fcp::client::InterruptibleRunner::TimingConfig{absl::Seconds(1), absl::Seconds(1), absl::Seconds(1)}, fcp::client::InterruptibleRunner::DiagnosticsConfig{}); },
    &holder, id, token, info, masked, plain, checkpoint ? std::optional<std::string>(chk) : std::nullopt, no_compression, absl::Seconds(7));
  vf_assert(made.ok() == (missing == 0), "every server address is needed");
  if (!made.ok()) { vf_reach("missing address"); return; }
  sa::ClientToServerWrapperMessage m; int kind = vf_choice(6, "message"); std::string data(2, (char)vf_u8("data")); std::string reply(2, (char)vf_u8("reply"));
  if (kind == 0) { auto* k = m.mutable_advertise_keys()->mutable_pair_of_public_keys(); k->set_enc_pk(data); k->set_noise_pk("n"); }
  if (kind == 1) m.mutable_share_keys_response()->add_encrypted_key_shares(data);
  if (kind == 2) (*m.mutable_masked_input_response()->mutable_vectors())["v"].set_encoded_vector(data);
  if (kind == 3) m.mutable_unmasking_response()->add_noise_or_prf_key_shares()->set_prf_sk_share(data);
  if (kind == 4) m.mutable_abort()->set_diagnostic_info(data);
  // Answers: uploads first (round 2), then the message, then polls while the operation is pending.
  int uploads = kind == 2 ? 1 + checkpoint : 0; int fail_upload = kind == 2 ? vf_choice(uploads + 1, "failing upload") : 0;  // 0: none
  int answer = vf_choice(5, "answer"); bool poll = kind <= 2 && answer <= 2 && vf::flag("pending first");  // answer: right, operation failed, foreign response, refused, unreadable
  run.abort = aborted_runner;
  auto finish = [&](Operation& op) {
    op.set_name("operations/o"); op.set_done(true);
    if (answer == 1) { op.mutable_error()->set_code(9); op.mutable_error()->set_message("no"); return; }
    if (answer == 2) { fc::ForwardingInfo f; op.mutable_response()->PackFrom(f); return; }
    if (kind == 0) { fc::AdvertiseKeysResponse r; r.mutable_share_keys_server_request()->set_session_id(reply); op.mutable_response()->PackFrom(r); }
    if (kind == 1) { fc::ShareKeysResponse r; r.mutable_masked_input_collection_server_request()->add_encrypted_key_shares(reply); op.mutable_response()->PackFrom(r); }
    if (kind == 2) { fc::SubmitSecureAggregationResultResponse r; r.mutable_unmasking_server_request()->add_dead_3_client_ids(reply[0]); op.mutable_response()->PackFrom(r); }
  };
  http.answer = [&](int i, VfHandle& h, HttpRequestCallback& cb) {
    if (i < uploads) { if (fail_upload == i + 1) vf_respond(h, cb, 503, {}, ""); else vf_respond(h, cb, 200, {}, ""); return; }
    int j = i - uploads;
    if (j == 0 && answer == 3) { vf_respond(h, cb, 404, {}, ""); return; }
    if (j == 0 && answer == 4 && kind <= 2) { vf_respond(h, cb, 200, {}, "\x0a"); return; }
    Operation op; if (kind <= 2) { if (poll && j == 0) { op.set_name("operations/o"); } else finish(op); }
    vf_respond(h, cb, 200, {}, op.SerializeAsString());
  };
  sa::ClientToServerWrapperMessage given = m; (*made)->Send(&m);
  if (kind == 5) { vf_assert(http.seen.empty() && holder.ok(), "a finished protocol sends nothing"); vf_reach("finished"); return; }
  if (aborted_runner && kind != 4) { vf_assert(http.seen.empty() && !holder.ok(), "an interrupted session sends nothing and reports it"); vf_reach("interrupted"); return; }
  size_t sent = http.seen.size();
  for (auto& q : http.seen) vf_assert(count(q.headers, "x-goog-api-key", "key") == 1, "every message carries the key");
  for (int i = 0; i < uploads; i++) {
    vf_assert((size_t)i < sent, "the results are uploaded"); auto& q = http.seen[i]; std::string s = q.body;
    vf_assert(same_uri(q.uri, i == 0 ? "https://masked/upload/v1/media/m/1" : "https://plain/upload/v1/media/p%202", {"upload_protocol=raw"}) && q.method == HttpRequest::Method::kPost, "each result goes to its own place");
    vf_assert(s == (i == 0 ? given.masked_input_response().SerializeAsString() : chk), "the uploaded results are the device's");
  }
  bool uploaded = fail_upload == 0;
  if (!uploaded) { vf_assert((int)sent == uploads && !holder.ok() && holder.status().code() == absl::StatusCode::kUnavailable, "a failed upload ends the round"); vf_reach("upload failed"); return; }
  vf_assert((int)sent == uploads + 1 + poll, "one message per round, followed by questions while it is pending");
  static const char* VERBS[] = {"advertisekeys", "sharekeys", "submit", "unmask", "abort"};
  auto& q = http.seen[uploads];
  vf_assert(same_uri(q.uri, std::string("https://agg/v1/secureaggregations/a%2Fg/clients/t:") + VERBS[kind], {"%24alt=proto"}) && q.method == HttpRequest::Method::kPost, "every round has its own endpoint");
  std::string b = q.body; if (count(q.headers, "Content-Encoding", "gzip")) { vf_assert(!no_compression && b.size() >= 2 && b[0] == 0x1f && b[1] == 'z', "compression can be turned off"); b = b.substr(2); }
  if (kind == 0) { fc::AdvertiseKeysRequest r; vf_assert(parse(b, &r) && r.advertise_keys().pair_of_public_keys().enc_pk() == data && r.advertise_keys().pair_of_public_keys().noise_pk() == "n", "the keys are sent"); }
  if (kind == 1) { fc::ShareKeysRequest r; vf_assert(parse(b, &r) && r.share_keys_client_response().encrypted_key_shares_size() == 1 && r.share_keys_client_response().encrypted_key_shares(0) == data, "the shares are sent"); }
  if (kind == 2) { fc::SubmitSecureAggregationResultRequest r; vf_assert(parse(b, &r) && r.masked_result_resource_name() == "m/1" && r.nonmasked_result_resource_name() == (checkpoint ? "p 2" : ""), "the uploads are named"); }
  if (kind == 3) { fc::UnmaskRequest r; vf_assert(parse(b, &r) && r.unmasking_client_response().noise_or_prf_key_shares_size() == 1 && r.unmasking_client_response().noise_or_prf_key_shares(0).prf_sk_share() == data, "the unmasking shares are sent"); }
  if (kind == 4) { fc::AbortSecureAggregationRequest r; vf_assert(parse(b, &r) && r.status().message() == data && r.status().code() != 0, "the reason is sent"); vf_assert(delayed == 1 && deadline == absl::FromUnixSeconds(1007), "aborting is given its own time limit"); }
  if (poll) vf_assert(same_uri(http.seen[uploads + 1].uri, "https://agg/v1/operations/o", {"%24alt=proto"}), "pending operations are asked for");
  bool good = kind <= 2 ? answer == 0 : answer != 3;
  vf_assert(holder.ok() == good, "the reply is a message exactly when the server sent the expected one");
  if (!good) { if (answer == 1) vf_assert(holder.status().code() == absl::StatusCode::kFailedPrecondition, "the server's error is reported"); if (answer == 3) vf_assert(holder.status().code() == absl::StatusCode::kNotFound, "the failure is reported"); vf_reach("failed"); return; }
  vf_assert(holder->has_share_keys_request() == (kind == 0) && holder->has_masked_input_request() == (kind == 1) && holder->has_unmasking_request() == (kind == 2) && holder->has_abort() == (kind == 4), "the reply is the next round's message");
  if (kind == 0) vf_assert(holder->share_keys_request().session_id() == reply, "the reply is the server's");
  if (kind == 1) vf_assert(holder->masked_input_request().encrypted_key_shares_size() == 1 && holder->masked_input_request().encrypted_key_shares(0) == reply, "the reply is the server's");
  if (kind == 2) vf_assert(holder->unmasking_request().dead_3_client_ids_size() == 1 && holder->unmasking_request().dead_3_client_ids(0) == (uint32_t)(int)reply[0], "the reply is the server's");
  vf_reach("answered");
}
}
extern "C" void vf_main() { if (vf_param("mode", 0)) rounds(); else create(); }
