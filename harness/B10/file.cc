// Whole-file helpers.
#include "fcp/base/platform.h"
#include "vf.h"
#include "vffs.h"
extern "C" int stat(const char* p, struct stat*) noexcept(true) { std::string n = vffs::norm(p); return vffs::disk.files.count(n) || vffs::disk.dirs.count(n) ? 0 : -1; }
extern "C" void vf_main() {
  vffs::reset(); vffs::disk.dirs.insert("/d"); vffs::disk.files["/d/old"] = vf::str(0, 2, "old"); std::string old = vffs::disk.files["/d/old"]; vffs::disk.files["/d/other"] = "zz";
  if (vf_param("mode", 0) == 1) {
    std::string a = vf::str(0, 3, "first"), b = vf::str(0, 3, "second");
    for (char c : a + b) vf_assume(c == '/' || (c >= 'a' && c <= 'c'));
    std::string j = fcp::ConcatPath(a, b); vf_assert(j == (a.empty() ? b : a + "/" + b), "paths are joined with one separator");
    std::string s(fcp::StripTrailingPathSeparator(a)); vf_assert(s == (!a.empty() && a.back() == '/' ? a.substr(0, a.size() - 1) : a), "one trailing separator is removed");
    vf_assert(fcp::FileExists("/d/old") && !fcp::FileExists("/d/new"), "existence is reported"); vf_reach("paths"); return;
  }
  vffs::faults = (int)vf_param("faults", 1); vffs::lazy = vf::flag("buffered");
  static const char* NAMES[] = {"/d/new", "/d/old", "/e/new"}; int w = vf_choice(3, "name"); std::string name = NAMES[w], text = vf::str(0, 3, "content"); bool cord = vf::flag("cord");
  absl::Cord c; c.Append(text.substr(0, text.size() / 2)); c.Append(text.substr(text.size() / 2));
  absl::Status s = cord ? fcp::WriteCordToFile(name, c) : fcp::WriteStringToFile(name, text);
  vf_assert(vffs::disk.files["/d/other"] == "zz" && (w == 1 || vffs::disk.files["/d/old"] == old), "other files stay as they are");
  if (s.ok()) { vf_assert(vffs::disk.files.count(name) && vffs::disk.files[name] == text, "a successful write left exactly the content"); vf_reach("written"); }
  else { vf_assert(w == 2 || vffs::faults < vf_param("faults", 1), "writing only fails when the storage does"); vf_reach("write failed"); }
  if (w == 2) vf_assert(!s.ok(), "files cannot be written where there is no directory");
  vffs::faults = 0; std::string now = vffs::disk.files.count(name) ? vffs::disk.files[name] : "";
  if (cord) { auto r = fcp::ReadFileToCord(name); vf_assert(r.ok() == (vffs::disk.files.count(name) == 1), "existing files can be read"); if (r.ok()) vf_assert(std::string(*r) == now, "reading gives exactly the content"); }
  else { auto r = fcp::ReadFileToString(name); vf_assert(r.ok() == (vffs::disk.files.count(name) == 1), "existing files can be read"); if (r.ok()) { vf_assert(*r == now, "reading gives exactly the content"); vf_reach("read"); } else vf_reach("nothing to read"); }
}
