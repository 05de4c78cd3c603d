// Temporary files.
#include <string>
#include <set>
#include "fcp/client/cache/temp_files.h"
#include "vffs.h"
#include "logm.h"
#include "vf.h"
using fcp::client::cache::TempFiles;
static std::string dir = "/data/fcp/tmp/";
static std::map<std::string, std::string> outside() { std::map<std::string, std::string> r; for (auto& f : vffs::disk.files) if (f.first.compare(0, dir.size(), dir) != 0) r[f.first] = f.second; return r; }
static bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
static bool ends(const std::string& s, const std::string& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
extern "C" void vf_main() {
  int mode = (int)vf_param("mode", 0), steps = (int)vf_param("steps", 3); VfLog log;
  if (mode == 2) {  // relative directories are refused
    std::string d = vf::str(0, 3, "directory"); bool abs = !d.empty() && d[0] == '/'; for (char c : d) vf_assume(c != 0);
    if (abs) return; auto t = TempFiles::Create(d, &log); vf_assert(!t.ok(), "a relative directory is refused"); vf_assert(vffs::disk.files.empty() && vffs::disk.dirs.empty(), "nothing is created"); vf_reach("refused"); return;
  }
  // Leftovers of an earlier run, and files next to the directory that must not be touched.
  for (const char* d : {"/data", "/data/fcp", "/data/fcp/cache", "/data/fcp/tmp2", "/data/tmp"}) vffs::disk.dirs.insert(d);
  bool existed = vf::flag("directory exists"); if (existed) { vffs::disk.dirs.insert("/data/fcp/tmp"); int n = vf_choice(3, "leftovers"); for (int i = 0; i < n; i++) vffs::disk.files[dir + "old" + (char)('0' + i)] = "left"; }
  vffs::disk.files["/data/fcp/cache/a"] = "keep"; vffs::disk.files["/data/fcp/x"] = "keep"; vffs::disk.files["/data/y"] = "keep"; vffs::disk.files["/data/fcp/tmp2/z"] = "keep"; vffs::disk.files["/data/tmp/w"] = "keep";
  auto before = outside();
  vffs::faults = (int)vf_param("faults", 0);
  {
    auto t = TempFiles::Create(vf::flag("trailing slash") ? "/data/" : "/data", &log);
    vf_assert(outside() == before, "files elsewhere are left alone");
    if (!t.ok()) { vf_assert(vf_param("faults", 0) > 0, "creation succeeds on a working disk"); vf_reach("failed"); return; }
    int left = 0; for (auto& f : vffs::disk.files) if (starts(f.first, dir)) left++;
    vf_assert(left == 0, "leftovers of an earlier run are removed");
    std::set<std::string> mine; static const char* pre[] = {"p", "", "ab"}; static const char* suf[] = {".ckp", "", "x"};
    for (int i = 0; i < steps; i++) {
      int k = vf_choice(2, "kind"); auto was = vffs::disk.files;
      auto f = (*t)->CreateTempFile(pre[k], suf[k]);
      vf_assert(outside() == before, "files elsewhere are left alone");
      if (!f.ok()) { vf_assert(vf_param("faults", 0) > 0, "creation succeeds on a working disk"); continue; }
      vf_assert(mine.insert(*f).second, "every temporary file is new"); vf_assert(was.count(*f) == 0, "an existing file is never handed out");
      vf_assert(starts(*f, dir + pre[k]) && ends(*f, suf[k]), "the name carries prefix and suffix inside the directory");
      vf_assert(vffs::disk.files.count(*f) && vffs::disk.files[*f].empty(), "the file exists and is empty");
      for (auto& o : was) vf_assert(vffs::disk.files.count(o.first) && vffs::disk.files[o.first] == o.second, "other files keep their content");
      vffs::disk.files[*f] = "content";
    }
    if (vf::flag("removed by the user") && !mine.empty()) vffs::disk.files.erase(*mine.begin());
    vffs::faults = (int)vf_param("endfaults", 0);
  }
  int survivors = 0; for (auto& f : vffs::disk.files) if (starts(f.first, dir)) survivors++;
  vf_assert(survivors <= (int)vf_param("endfaults", 0), "no temporary file survives, except one that could not be deleted");
  vf_assert(outside() == before, "files elsewhere are left alone");
  vf_reach("done");
}
