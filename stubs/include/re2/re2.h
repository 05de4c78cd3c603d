// Regular expressions: literals, '.', and the postfix operators * + ?, matched against the whole text.
#pragma once
#include <string>
#include "absl/strings/string_view.h"
class RE2 {
 public:
  RE2(const char* p) : RE2(std::string(p)) {}
  RE2(absl::string_view p) : RE2(std::string(p)) {}
  RE2(const std::string& p) : p_(p) { for (size_t i = 0; i < p.size(); i++) { char c = p[i]; if (c == '(' || c == ')' || c == '[' || c == '\\') ok_ = false; if ((c == '*' || c == '+' || c == '?') && (i == 0 || p[i - 1] == '*' || p[i - 1] == '+' || p[i - 1] == '?')) ok_ = false; } }
  bool ok() const { return ok_; }
  const std::string& pattern() const { return p_; }
  const std::string& error() const { static const std::string e = "bad pattern"; return e; }
  static bool FullMatch(absl::string_view t, const RE2& re) { return re.ok_ && re.Match(0, t, 0, true); }
  static bool PartialMatch(absl::string_view t, const RE2& re) { if (re.ok_) for (size_t i = 0; i <= t.size(); i++) if (re.Match(0, t, i, false)) return true; return false; }
 private:
  bool Match(size_t i, absl::string_view t, size_t j, bool full) const {
    if (i == p_.size()) return !full || j == t.size();
    char op = i + 1 < p_.size() ? p_[i + 1] : 0; bool rep = op == '*' || op == '+' || op == '?', here = j < t.size() && (p_[i] == '.' || p_[i] == t[j]);
    if (!rep) return here && Match(i + 1, t, j + 1, full);
    if (op != '+' && Match(i + 2, t, j, full)) return true;
    if (!here) return false;
    if (op == '?') return Match(i + 2, t, j + 1, full);
    if (Match(i + 2, t, j + 1, full)) return true;
    return Match(i, t, j + 1, full);
  }
  std::string p_; bool ok_ = true;
};
