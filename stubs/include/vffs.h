// In-memory file system standing in for std::filesystem, the file streams and open/close, with failing operations and
// power loss under the control of the harness.
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>
#include <system_error>
#include "vfabsl/ios.h"
namespace vffs {
struct Disk { std::map<std::string, std::string> files; std::set<std::string> dirs; };
extern Disk disk;
extern int faults;          // operations that may still fail (each failure is a choice)
extern int crashes;         // power losses that may still happen
extern bool lazy;           // failing writes only show when the stream is flushed or closed, as with a buffered stream
extern bool frozen;         // power is lost: nothing reaches the disk any more
extern std::vector<std::string> removed;  // every path the code asked to remove
void reset();
bool fails(const char* op, const std::string& path);  // decides whether this operation fails
bool dead(const char* op);                            // decides whether power is lost before this operation
std::string norm(const std::string& p);
bool put(const std::string& path, const char* p, size_t n, bool* bad);
std::error_code err(int e);
}
namespace std {
namespace filesystem {
class path {
 public:
  typedef char value_type; typedef string string_type; static constexpr char preferred_separator = '/';
  path() {}
  path(const char* s) : s_(s) {}
  path(const string& s) : s_(s) {}
  path(string&& s) : s_(std::move(s)) {}
  path(string_view s) : s_(s) {}
  path& operator/=(const path& o) { if (o.is_absolute()) s_ = o.s_; else { if (!s_.empty() && s_.back() != '/') s_ += '/'; s_ += o.s_; } return *this; }
  path& operator+=(const path& o) { s_ += o.s_; return *this; }
  path& append(const string& o) { return *this /= path(o); }
  path& concat(const string& o) { s_ += o; return *this; }
  const char* c_str() const { return s_.c_str(); }
  const string& native() const { return s_; }
  operator string() const { return s_; }
  string string() const { return s_; }
  std::string generic_string() const { return s_; }
  std::string u8string() const { return s_; }
  bool empty() const { return s_.empty(); }
  bool is_absolute() const { return !s_.empty() && s_[0] == '/'; }
  bool is_relative() const { return !is_absolute(); }
  path filename() const { auto p = s_.rfind('/'); return p == std::string::npos ? path(s_) : path(s_.substr(p + 1)); }
  path parent_path() const { auto p = s_.rfind('/'); return p == std::string::npos ? path() : p == 0 ? path("/") : path(s_.substr(0, p)); }
  path extension() const { std::string f = filename().s_; auto p = f.rfind('.'); return p == std::string::npos || p == 0 ? path() : path(f.substr(p)); }
  path stem() const { std::string f = filename().s_; auto p = f.rfind('.'); return p == std::string::npos || p == 0 ? path(f) : path(f.substr(0, p)); }
  bool has_filename() const { return !filename().empty(); }
  int compare(const path& o) const { return s_.compare(o.s_); }
  friend bool operator==(const path& a, const path& b) { return a.s_ == b.s_; }
  friend bool operator!=(const path& a, const path& b) { return a.s_ != b.s_; }
  friend bool operator<(const path& a, const path& b) { return a.s_ < b.s_; }
  friend path operator/(const path& a, const path& b) { path r = a; r /= b; return r; }
  template <class O> friend O& operator<<(O& o, const path& p) { o << '"' << p.s_ << '"'; return o; }
 private:
  std::string s_;
};
class filesystem_error : public system_error { public: filesystem_error(const string& s, error_code e) : system_error(e) {} };
bool exists(const path& p, error_code& e) noexcept;
bool exists(const path& p);
bool is_directory(const path& p);
bool is_regular_file(const path& p);
inline bool is_directory(const path& p, error_code& e) { e = vffs::err(0); return is_directory(p); }
inline bool is_regular_file(const path& p, error_code& e) { e = vffs::err(0); return is_regular_file(p); }
bool remove(const path& p, error_code& e) noexcept;
bool remove(const path& p);
uintmax_t remove_all(const path& p, error_code& e);
uintmax_t remove_all(const path& p);
bool create_directories(const path& p, error_code& e);
bool create_directories(const path& p);
inline bool create_directory(const path& p, error_code& e) { return create_directories(p, e); }
inline bool create_directory(const path& p) { return create_directories(p); }
uintmax_t file_size(const path& p, error_code& e) noexcept;
uintmax_t file_size(const path& p);
void rename(const path& a, const path& b, error_code& e) noexcept;
void rename(const path& a, const path& b);
path temp_directory_path();
inline path temp_directory_path(error_code& e) { e = vffs::err(0); return temp_directory_path(); }
class directory_entry {
 public:
  directory_entry() {}
  explicit directory_entry(const std::filesystem::path& p) : p_(p) {}
  const std::filesystem::path& path() const { return p_; }
  operator const std::filesystem::path&() const { return p_; }
  bool exists() const { return std::filesystem::exists(p_); }
  bool is_regular_file() const { return std::filesystem::is_regular_file(p_); }
  bool is_directory() const { return std::filesystem::is_directory(p_); }
  uintmax_t file_size() const { return std::filesystem::file_size(p_); }
 private:
  std::filesystem::path p_;
};
class directory_iterator {
 public:
  typedef directory_entry value_type; typedef const directory_entry& reference; typedef const directory_entry* pointer; typedef ptrdiff_t difference_type; typedef input_iterator_tag iterator_category;
  directory_iterator() {}
  explicit directory_iterator(const path& p);
  directory_iterator(const path& p, error_code& e);
  const directory_entry& operator*() const { return (*l_)[i_]; }
  const directory_entry* operator->() const { return &(*l_)[i_]; }
  directory_iterator& operator++() { if (++i_ >= l_->size()) l_.reset(); return *this; }
  directory_iterator& increment(error_code& e) { e = vffs::err(0); return ++*this; }
  bool operator==(const directory_iterator& o) const { return !l_ && !o.l_; }
  bool operator!=(const directory_iterator& o) const { return !(*this == o); }
 private:
  shared_ptr<vector<directory_entry>> l_; size_t i_ = 0;
};
inline directory_iterator begin(directory_iterator i) { return i; }
inline directory_iterator end(const directory_iterator&) { return directory_iterator(); }
}  // namespace filesystem
template <> class basic_ofstream<char> : public basic_ostream<char> {
 public:
  basic_ofstream() {}
  explicit basic_ofstream(const filesystem::path& p, int mode = ios_base::out) { open(p, mode); }
  void open(const filesystem::path& p, int mode = ios_base::out);
  bool is_open() const { return open_; }
  void close() { if (!open_ || late_) bad_ = true; open_ = late_ = false; }
  basic_ostream<char>& flush() override { if (late_) bad_ = true; late_ = false; return *this; }
  void vf_put(const char* p, size_t n) override { if (!open_) { bad_ = true; return; } bool b = false; if (!bad_ && !vffs::put(path_, p, n, &b)) bad_ = true; late_ = late_ || b; }
  long tellp() const { return bad_ ? -1 : (long)vffs::disk.files[path_].size(); }
 private:
  std::string path_; bool open_ = false, late_ = false;
};
struct VfFileBuf { const std::string* s; size_t* at; };  // what rdbuf() gives: enough to copy the rest of a file
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const VfFileBuf* b) { if (!b || *b->at >= b->s->size()) { o.setstate(0); return o; } o.write(b->s->data() + *b->at, (long)(b->s->size() - *b->at)); *b->at = b->s->size(); return o; }
template <> class basic_ifstream<char> : public basic_istream<char> {
 public:
  basic_ifstream() {}
  explicit basic_ifstream(const filesystem::path& p, int mode = ios_base::in) { open(p, mode); }
  void open(const filesystem::path& p, int mode = ios_base::in);
  bool is_open() const { return open_; }
  void close() { open_ = false; }
  size_t vf_get(char* p, size_t n) override { size_t k = s_.size() - at_ < n ? s_.size() - at_ : n; for (size_t i = 0; i < k; i++) p[i] = s_[at_ + i]; at_ += k; return k; }
  int peek() override { return at_ < s_.size() ? (unsigned char)s_[at_] : -1; }
  void seekg(long off, int dir = ios_base::beg) { at_ = dir == ios_base::beg ? off : dir == ios_base::end ? s_.size() + off : at_ + off; }
  long tellg() { return fail_ ? -1 : (long)at_; }
  const std::string& vf_all() const { return s_; }
  VfFileBuf* rdbuf() { buf_ = {&s_, &at_}; return &buf_; }
 private:
  std::string s_; size_t at_ = 0; bool open_ = false; VfFileBuf buf_{};
};
template <> class basic_fstream<char> : public basic_iostream<char> {
 public:
  basic_fstream() {}
  explicit basic_fstream(const filesystem::path& p, int mode = ios_base::in | ios_base::out) { open(p, mode); }
  void open(const filesystem::path& p, int mode = ios_base::in | ios_base::out);
  bool is_open() const { return open_; }
  void close() { if (!open_ || late_) bad_ = true; open_ = late_ = false; }
  basic_ostream<char>& flush() override { if (late_) bad_ = true; late_ = false; return *this; }
  void vf_put(const char* p, size_t n) override { if (!open_) { bad_ = true; return; } bool b = false; if (!bad_ && !vffs::put(path_, p, n, &b)) bad_ = true; late_ = late_ || b; }
  size_t vf_get(char* p, size_t n) override { const std::string& s = vffs::disk.files[path_]; size_t k = s.size() - at_ < n ? s.size() - at_ : n; for (size_t i = 0; i < k; i++) p[i] = s[at_ + i]; at_ += k; return k; }
  long tellp() const { return bad_ ? -1 : (long)vffs::disk.files[path_].size(); }
  void seekg(long off, int dir = ios_base::beg) { at_ = dir == ios_base::beg ? off : vffs::disk.files[path_].size() + off; }
 private:
  std::string path_; bool open_ = false, late_ = false; size_t at_ = 0;
};
}  // namespace std
