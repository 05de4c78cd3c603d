// The file layer of the message store, on the in-memory file system.
#pragma once
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "vffs.h"
namespace protostore {
class FileStorage { public: absl::StatusOr<int64_t> GetFileSize(const std::string& p) const { auto it = vffs::disk.files.find(vffs::norm(p)); if (it == vffs::disk.files.end() || vffs::fails("size", p)) return absl::InternalError("size"); return (int64_t)it->second.size(); } };
}
