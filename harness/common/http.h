// HTTP client driven by the harness, and an interruptible runner that runs in the caller's thread (common/runner.cc).
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "logm.h"
#include "fcp/client/http/http_client.h"
#include "fcp/client/interruptible_runner.h"
#include "vf.h"
struct VfResponse : fcp::client::http::HttpResponse {
  int c = 200; fcp::client::http::HeaderList h;
  VfResponse(int code = 200, fcp::client::http::HeaderList hl = {}) : c(code), h(std::move(hl)) {}
  int code() const override { return c; }
  const fcp::client::http::HeaderList& headers() const override { return h; }
};
struct VfHandle : fcp::client::http::HttpRequestHandle {
  std::unique_ptr<fcp::client::http::HttpRequest> req; int64_t sent = 0, received = 0; int* cancels;
  SentReceivedBytes TotalSentReceivedBytes() const override { return {.sent_bytes = sent, .received_bytes = received}; }
  void Cancel() override { ++*cancels; }
};
struct VfSeen { std::string uri; fcp::client::http::HttpRequest::Method method; fcp::client::http::HeaderList headers; std::string body; bool has_body; };
struct VfHttpClient : fcp::client::http::HttpClient {
  using Pairs = std::vector<std::pair<fcp::client::http::HttpRequestHandle*, fcp::client::http::HttpRequestCallback*>>;
  std::vector<VfSeen> seen;  // every request performed, in order
  int enqueued = 0, performed = 0, cancels = 0; bool read_bodies = true;
  // One call per request; index counts all requests performed so far.
  std::function<void(int, VfHandle&, fcp::client::http::HttpRequestCallback&)> answer;
  std::function<absl::Status()> result;  // what PerformRequests returns
  std::unique_ptr<fcp::client::http::HttpRequestHandle> EnqueueRequest(std::unique_ptr<fcp::client::http::HttpRequest> r) override { enqueued++; auto h = std::make_unique<VfHandle>(); h->req = std::move(r); h->cancels = &cancels; return h; }
  absl::Status PerformRequests(Pairs ps) override {
    performed++;
    for (auto& p : ps) {
      VfHandle& h = *static_cast<VfHandle*>(p.first); VfSeen s{std::string(h.req->uri()), h.req->method(), h.req->extra_headers(), "", h.req->HasBody()};
      if (s.has_body && read_bodies) { char buf[64]; for (int k = 0; k < 64; k++) { auto n = h.req->ReadBody(buf, 64); if (!n.ok()) break; s.body.append(buf, *n); } }
      seen.push_back(s);
      if (answer) answer((int)seen.size() - 1, h, *p.second);
    }
    return result ? result() : absl::OkStatus();
  }
};
// A complete response: code, headers and one piece of body.
inline void vf_respond(VfHandle& h, fcp::client::http::HttpRequestCallback& cb, int code, const fcp::client::http::HeaderList& hl, const std::string& body) {
  VfResponse r(code, hl); if (!cb.OnResponseStarted(*h.req, r).ok()) return;
  if (!body.empty() && !cb.OnResponseBody(*h.req, r, body).ok()) return;
  cb.OnResponseCompleted(*h.req, r);
}
struct VfRunner { VfLog log; bool abort = false; fcp::client::InterruptibleRunner r{&log, [this] { return abort; }, {absl::Seconds(1), absl::Seconds(1), absl::Seconds(1)}, {}}; };
