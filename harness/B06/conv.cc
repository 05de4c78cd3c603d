// Status translation between the RPC library, the wire message and the internal form.
#include <string>
#include "fcp/base/status_converters.h"
#include "fcp/client/http/http_client_util.h"
#include "vf.h"
using namespace fcp;
using namespace fcp::client::http;
static std::string msg() { std::string m = "e12"; vf_bytes(&m[0], 3, "message"); return m; }
static bool same(absl::string_view a, const std::string& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < b.size(); i++) r &= a[i] == b[i]; return r; }
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0);
  if (mode == 0) {  // from the RPC library, any code
    uint32_t code = vf_u32("code"); std::string m = msg();
    StatusCode got = base::FromGrpcStatusCode((grpc::StatusCode)(int)code);
    vf_assert((int)got == (code <= 16 ? (int)code : (int)StatusCode::kUnknown), "codes of the RPC library keep their meaning");
    Status s = base::FromGrpcStatus(grpc::Status((grpc::StatusCode)(int)code, m));
    vf_assert(s.ok() == (code == 0), "success and failure are kept"); vf_assert(s.code() == got, "code of the status"); if (!s.ok()) vf_assert(same(s.message(), m), "messages are kept");
    vf_reach("from rpc");
  } else if (mode == 1) {  // to the RPC library
    uint32_t code = vf_u32("code"); std::string m = msg();
    grpc::StatusCode got = base::ToGrpcStatusCode((StatusCode)(int)code);
    vf_assert((int)got == (code <= 16 ? (int)code : (int)grpc::StatusCode::UNKNOWN), "internal codes keep their meaning");
    vf_assume(code <= 16);
    grpc::Status s = base::ToGrpcStatus(Status((StatusCode)(int)code, m));
    vf_assert(s.ok() == (code == 0), "success and failure are kept"); vf_assert((uint32_t)s.error_code() == code, "code of the status");
    if (code) vf_assert(same(s.error_message(), m), "messages are kept"); else vf_assert(s.error_message().empty(), "success has no message");
    Status b = base::FromGrpcStatus(s);
    vf_assert((uint32_t)b.code() == code, "codes survive the way there and back"); if (code) vf_assert(same(b.message(), m), "messages survive the way there and back");
    vf_reach("to rpc");
  } else if (mode == 2) {  // from the wire message
    uint32_t code = vf_u32("code"); std::string m = msg(); google::rpc::Status w; w.set_code((int)code); w.set_message(m);
    absl::Status s = ConvertRpcStatusToAbslStatus(w);
    vf_assert((int)s.code() == (code <= 16 ? (int)code : 2), "wire codes keep their meaning"); vf_assert(s.ok() == (code == 0), "success and failure are kept");
    if (code) vf_assert(same(s.message(), m), "messages are kept");
    vf_reach("from wire");
  } else if (mode == 3) {  // to the wire message and back
    uint32_t code = vf_u32("code"); vf_assume(code <= 16); std::string m = msg(); absl::Status s((absl::StatusCode)(int)code, m);
    google::rpc::Status w = ConvertAbslStatusToRpcStatus(s);
    vf_assert((uint32_t)w.code() == code, "codes keep their meaning on the wire"); if (code) vf_assert(same(w.message(), m), "messages are kept on the wire");
    absl::Status b = ConvertRpcStatusToAbslStatus(w); vf_assert((uint32_t)b.code() == code, "codes survive the way there and back"); if (code) vf_assert(same(b.message(), m), "messages survive the way there and back");
    vf_reach("to wire");
  } else {  // response codes
    int code = (int)vf_u32("code"); absl::Status s = ConvertHttpCodeToStatus(code); int c = (int)s.code(), w;
    using S = absl::StatusCode;
    switch (code) {
      case 400: w = (int)S::kInvalidArgument; break; case 401: w = (int)S::kUnauthenticated; break; case 403: w = (int)S::kPermissionDenied; break; case 404: w = (int)S::kNotFound; break;
      case 409: w = (int)S::kAborted; break; case 429: w = (int)S::kResourceExhausted; break; case 499: w = (int)S::kCancelled; break; case 501: w = (int)S::kUnimplemented; break;
      case 503: w = (int)S::kUnavailable; break; case 504: w = (int)S::kDeadlineExceeded; break;
      default: w = code >= 200 && code <= 299 ? 0 : code >= 400 && code <= 499 ? (int)S::kFailedPrecondition : code >= 500 && code <= 599 ? (int)S::kInternal : (int)S::kUnknown;
    }
    vf_assert(c == w, "response codes map to their status class"); vf_assert(s.ok() == (code >= 200 && code < 300), "exactly the success codes are success");
    vf_reach("http");
  }
}
