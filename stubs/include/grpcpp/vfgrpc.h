// Stand-in for the RPC library's status type.
#pragma once
#include <string>
namespace grpc {
enum StatusCode { OK = 0, CANCELLED = 1, UNKNOWN = 2, INVALID_ARGUMENT = 3, DEADLINE_EXCEEDED = 4, NOT_FOUND = 5, ALREADY_EXISTS = 6, PERMISSION_DENIED = 7, UNAUTHENTICATED = 16, RESOURCE_EXHAUSTED = 8, FAILED_PRECONDITION = 9, ABORTED = 10, OUT_OF_RANGE = 11, UNIMPLEMENTED = 12, INTERNAL = 13, UNAVAILABLE = 14, DATA_LOSS = 15, DO_NOT_USE = -1 };
class Status {
 public:
  Status() = default;
  Status(StatusCode code, const std::string& m) : code_(code), message_(m) {}
  Status(StatusCode code, const std::string& m, const std::string& d) : code_(code), message_(m), details_(d) {}
  static const Status& OK; static const Status& CANCELLED;
  StatusCode error_code() const { return code_; }
  std::string error_message() const { return message_; }
  std::string error_details() const { return details_; }
  bool ok() const { return code_ == StatusCode::OK; }
  void IgnoreError() const {}
 private:
  StatusCode code_ = StatusCode::OK; std::string message_, details_;
};
inline const Status& Status::OK = *new Status();
inline const Status& Status::CANCELLED = *new Status(StatusCode::CANCELLED, "");
}
