// A store for one message. The file holds a reference to the message instead of its encoding; anything else in the
// file is unreadable, as a failed checksum would be. A failing or interrupted write leaves the file unreadable or as it
// was; whether the copy kept in memory survives a failed write is left open.
#pragma once
#include <memory>
#include <vector>
#include "protostore/file-storage.h"
#include "vf.h"
namespace protostore {
template <class T> class ProtoDataStore {
 public:
  ProtoDataStore(FileStorage&, absl::string_view path) : path_(vffs::norm(std::string(path))) {}
  static std::vector<T>& All() { static std::vector<T>* v = new std::vector<T>; return *v; }
  absl::StatusOr<const T*> Read() {
    if (mem_) return mem_.get();
    auto it = vffs::disk.files.find(path_); if (it == vffs::disk.files.end() || vffs::fails("store read", path_)) return absl::InternalError("read");
    const std::string& s = it->second; if (s.size() != 2 || s[0] != 'M') return absl::InternalError("checksum");
    mem_ = std::make_unique<T>(All()[(unsigned char)s[1]]); return mem_.get();
  }
  absl::Status Write(std::unique_ptr<T> m) {
    if (vffs::fails("store write", path_)) { if (vf_choice(2, "store damaged") && !vffs::frozen) vffs::disk.files[path_] = "?"; if (vf_choice(2, "store forgets")) mem_.reset(); return absl::InternalError("write"); }
    bool was = vffs::frozen; if (vffs::dead("store write")) { if (!was && vf_choice(2, "store damaged")) vffs::disk.files[path_] = "?"; mem_ = std::move(m); return absl::OkStatus(); }
    std::string s = "M"; s += (char)All().size(); All().push_back(*m); vffs::disk.files[path_] = s; mem_ = std::move(m); return absl::OkStatus();
  }
 private:
  std::string path_; std::unique_ptr<T> mem_;
};
}
