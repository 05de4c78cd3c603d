#include "vffs.h"
#include "vf.h"
#include <cstdarg>
namespace vffs {
Disk disk; int faults = 0, crashes = 0; bool lazy = false, frozen = false; std::vector<std::string> removed;
void reset() { disk = Disk(); faults = crashes = 0; lazy = frozen = false; removed.clear(); }
struct Cat : std::error_category { const char* name() const noexcept override { return "vf"; } std::string message(int) const override { return "input/output error"; } };
static const Cat* cat() { static const Cat* c = new Cat; return c; }
std::error_code err(int e) { return std::error_code(e, *cat()); }
bool fails(const char* op, const std::string& path) { if (faults <= 0) return false; if (!vf_choice(2, op)) return false; faults--; return true; }
bool dead(const char* op) { if (frozen) return true; if (crashes <= 0) return false; if (!vf_choice(2, "power loss")) return false; crashes--; frozen = true; return true; }
std::string norm(const std::string& p) { std::string r; for (char c : p) if (!(c == '/' && !r.empty() && r.back() == '/')) r += c; if (r.size() > 1 && r.back() == '/') r.pop_back(); return r; }
bool put(const std::string& path, const char* p, size_t n, bool* late) {
  bool was = frozen; if (dead("write")) { if (!was) disk.files[path].append(p, n / 2); return true; }
  size_t k = n; bool bad = false;
  if (fails("write", path)) { if (lazy) { *late = true; return true; } bad = true; k = n > 0 ? n / 2 : 0; }
  std::string& f = disk.files[path]; f.append(p, k);
  return !bad;
}
static bool isdir(const std::string& p) { return p == "/" || disk.dirs.count(p); }
static bool is(const std::string& p) { return disk.files.count(p) || isdir(p); }
static bool openout(const std::string& path, int mode, bool need) {
  if (fails("open", path)) return false;
  std::string dir = norm(std::filesystem::path(path).parent_path().string());
  if (!dir.empty() && !isdir(dir)) return false;
  if (isdir(path)) return false;
  if (need && !disk.files.count(path)) return false;
  if (dead("open")) return true;
  if (!(mode & (std::ios_base::app | std::ios_base::ate | std::ios_base::in)) || (mode & std::ios_base::trunc)) disk.files[path] = ""; else disk.files[path];
  return true;
}
}  // namespace vffs
namespace std { inline namespace _V2 { const error_category& system_category() noexcept { return *vffs::cat(); } const error_category& generic_category() noexcept { return *vffs::cat(); } } }
using namespace vffs;
namespace std {
namespace filesystem {
bool exists(const path& p, error_code& e) noexcept { if (fails("exists", p.string())) { e = err(5); return false; } e = err(0); return is(norm(p.string())); }
bool exists(const path& p) { return is(norm(p.string())); }
bool is_directory(const path& p) { return isdir(norm(p.string())); }
bool is_regular_file(const path& p) { return disk.files.count(norm(p.string())); }
bool remove(const path& p, error_code& e) noexcept {
  std::string n = norm(p.string()); vffs::removed.push_back(n); e = err(0);
  if (fails("remove", n)) { e = err(5); return false; }
  if (isdir(n)) { std::string pre = n + "/"; for (auto& f : disk.files) if (f.first.compare(0, pre.size(), pre) == 0) { e = err(39); return false; } for (auto& f : disk.dirs) if (f.compare(0, pre.size(), pre) == 0) { e = err(39); return false; } if (!dead("remove")) disk.dirs.erase(n); return true; }
  if (!disk.files.count(n)) return false;
  if (!dead("remove")) disk.files.erase(n);
  return true;
}
bool remove(const path& p) { error_code e; bool r = remove(p, e); if (e) vf_fail("file system exception"); return r; }
uintmax_t remove_all(const path& p, error_code& e) { std::string n = norm(p.string()), pre = n + "/"; uintmax_t k = 0; e = err(0); for (auto it = disk.files.begin(); it != disk.files.end();) if (it->first == n || it->first.compare(0, pre.size(), pre) == 0) { vffs::removed.push_back(it->first); it = disk.files.erase(it); k++; } else ++it; for (auto it = disk.dirs.begin(); it != disk.dirs.end();) if (*it == n || it->compare(0, pre.size(), pre) == 0) { it = disk.dirs.erase(it); k++; } else ++it; return k; }
uintmax_t remove_all(const path& p) { error_code e; return remove_all(p, e); }
bool create_directories(const path& p, error_code& e) {
  std::string n = norm(p.string()); e = err(0); if (fails("mkdir", n)) { e = err(5); return false; }
  bool made = false; for (size_t i = 1; i <= n.size(); i++) if (i == n.size() || n[i] == '/') { std::string d = n.substr(0, i); if (disk.files.count(d)) { e = err(20); return false; } if (!isdir(d)) { if (!dead("mkdir")) disk.dirs.insert(d); made = true; } }
  return made;
}
bool create_directories(const path& p) { error_code e; bool r = create_directories(p, e); if (e) vf_fail("file system exception"); return r; }
uintmax_t file_size(const path& p, error_code& e) noexcept { std::string n = norm(p.string()); auto it = disk.files.find(n); if (fails("size", n) || it == disk.files.end()) { e = err(it == disk.files.end() ? 2 : 5); return (uintmax_t)-1; } e = err(0); return it->second.size(); }
uintmax_t file_size(const path& p) { error_code e; uintmax_t r = file_size(p, e); if (e) vf_fail("file system exception"); return r; }
void rename(const path& a, const path& b, error_code& e) noexcept { std::string x = norm(a.string()), y = norm(b.string()); e = err(0); if (fails("rename", x) || !disk.files.count(x)) { e = err(5); return; } if (dead("rename")) return; disk.files[y] = disk.files[x]; if (x != y) disk.files.erase(x); }
void rename(const path& a, const path& b) { error_code e; rename(a, b, e); if (e) vf_fail("file system exception"); }
path temp_directory_path() { return "/tmp"; }
directory_iterator::directory_iterator(const path& p, error_code& e) {
  std::string n = norm(p.string()), pre = n == "/" ? n : n + "/"; e = err(0);
  if (fails("list", n) || !isdir(n)) { e = err(5); return; }
  auto l = make_shared<vector<directory_entry>>();
  for (auto& f : disk.files) if (f.first.compare(0, pre.size(), pre) == 0 && f.first.find('/', pre.size()) == std::string::npos) l->push_back(directory_entry(p / path(f.first.substr(pre.size()))));
  for (auto& f : disk.dirs) if (f.compare(0, pre.size(), pre) == 0 && f.find('/', pre.size()) == std::string::npos) l->push_back(directory_entry(p / path(f.substr(pre.size()))));
  if (!l->empty()) l_ = l;
}
directory_iterator::directory_iterator(const path& p) { error_code e; int f = vffs::faults; vffs::faults = 0; *this = directory_iterator(p, e); vffs::faults = f; if (e) vf_fail("file system exception"); }
}  // namespace filesystem
void basic_ofstream<char>::open(const filesystem::path& p, int mode) { path_ = norm(p.string()); open_ = openout(path_, mode, false); if (!open_) bad_ = true; }
void basic_fstream<char>::open(const filesystem::path& p, int mode) {
  path_ = norm(p.string());
  if (mode & ios_base::out) open_ = openout(path_, mode, (mode & ios_base::in) && !(mode & ios_base::trunc)); else open_ = disk.files.count(path_) && !fails("open", path_);
  if (!open_) bad_ = true;
}
void basic_ifstream<char>::open(const filesystem::path& p, int mode) { std::string n = norm(p.string()); auto it = disk.files.find(n); if (it == disk.files.end() || fails("open", n)) { fail_ = true; return; } s_ = it->second; open_ = true; }
}  // namespace std
// open/close of the operating system, reached through -Dopen=vffs_open -Dclose=vffs_close.
static int vffs_fd = 3;
#define vf_o_creat 0100
#define vf_o_excl 0200
#define vf_o_trunc 01000
static int vffs_errno; extern "C" int* vf_errno_location() noexcept(true) { return &vffs_errno; }
extern "C" int rand() noexcept(true) { static int n; n++; return n > 5 ? 100 + n : (int)vf_choice(3, "random file number"); }
extern "C" int vffs_open(const char* name, int flags, ...) {
  std::string n = norm(name);
  if (disk.files.count(n)) { if ((flags & vf_o_creat) && (flags & vf_o_excl)) { vffs_errno = 17; return -1; } if ((flags & vf_o_trunc) && !dead("open")) disk.files[n] = ""; return vffs_fd++; }
  if (fails("open", n)) { vffs_errno = 5; return -1; }
  if (!(flags & vf_o_creat)) { vffs_errno = 2; return -1; }
  if (!dead("open")) disk.files[n] = "";
  return vffs_fd++;
}
extern "C" int vffs_close(int) { return 0; }
