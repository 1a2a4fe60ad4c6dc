// Stand-in for re2/re2.h (headers not installed here). Only the pieces the
// repository uses; anchored matching by std::regex (ECMAScript), with RE2's
// rules for the optional capture arguments.
#ifndef VERIF_SHIM_RE2_H_
#define VERIF_SHIM_RE2_H_
#include <cerrno>
#include <cstdlib>
#include <regex>
#include <string>
#include <type_traits>
#include <vector>
#include "absl/strings/string_view.h"

class RE2 {
 public:
  RE2(const char* p);
  RE2(const std::string& p);
  template <class... A>
  static bool FullMatch(absl::string_view text, const RE2& re, A&&... a);
  template <class... A>
  static bool PartialMatch(absl::string_view text, const RE2& re, A&&... a);
  bool ok() const;
  enum CannedOptions { DefaultOptions, Latin1, POSIX, Quiet };
  struct Options {
    Options() {}
    Options(CannedOptions) {}
    void set_case_sensitive(bool) {}
    void set_log_errors(bool) {}
  };
  RE2(const std::string& p, const Options& o);
  const std::string& pattern() const;
  int NumberOfCapturingGroups() const;
  template <class... A>
  static bool Consume(absl::string_view* text, const RE2& re, A&&... a);
  template <class... A>
  static bool FindAndConsume(absl::string_view* text, const RE2& re, A&&... a);
  static bool Replace(std::string* s, const RE2& re, absl::string_view rewrite);
  static int GlobalReplace(std::string* s, const RE2& re, absl::string_view rewrite);
  static std::string QuoteMeta(absl::string_view s);

 private:
  std::regex re_;
  std::string pat_;
};

class LazyRE2 {
 public:
  const RE2& operator*() const { return *get(); }
  const RE2* operator->() const { return get(); }
  const char* pattern_;

 private:
  const RE2* get() const { return new RE2(pattern_); }
};

#ifndef VERIF_SHIM_NO_DEFS
namespace re2_shim {
inline bool Parse(const std::string& s, std::string* o) {
  if (o) *o = s;
  return true;
}
inline bool Parse(const std::string& s, double* o) {
  if (s.empty() || s[0] == ' ') return false;
  char* e;
  errno = 0;
  double d = std::strtod(s.c_str(), &e);
  if (e != s.c_str() + s.size() || errno) return false;
  if (o) *o = d;
  return true;
}
inline bool Parse(const std::string& s, float* o) {
  double d;
  if (!Parse(s, &d)) return false;
  if (o) *o = d;
  return true;
}
inline bool Parse(const std::string& s, int* o) {
  char* e;
  errno = 0;
  long d = std::strtol(s.c_str(), &e, 10);
  if (s.empty() || e != s.c_str() + s.size() || errno) return false;
  if (o) *o = d;
  return true;
}
inline bool Parse(const std::string&, std::nullptr_t) { return true; }
template <class It>
bool All(It, It) { return true; }
template <class It, class T, class... A>
bool All(It b, It e, T&& t, A&&... a) {
  if (b == e) return false;
  if (!Parse(b->str(), t)) return false;
  return All(++b, e, a...);
}
}  // namespace re2_shim
inline RE2::RE2(const char* p) : re_(p), pat_(p) {}
inline RE2::RE2(const std::string& p) : re_(p), pat_(p) {}
inline bool RE2::ok() const { return true; }
template <class... A>
bool RE2::FullMatch(absl::string_view text, const RE2& re, A&&... a) {
  std::smatch m;
  std::string s(text);
  if (!std::regex_match(s, m, re.re_)) return false;
  std::vector<std::ssub_match> g(m.begin() + 1, m.end());
  return re2_shim::All(g.begin(), g.end(), a...);
}
template <class... A>
bool RE2::PartialMatch(absl::string_view text, const RE2& re, A&&... a) {
  std::smatch m;
  std::string s(text);
  if (!std::regex_search(s, m, re.re_)) return false;
  std::vector<std::ssub_match> g(m.begin() + 1, m.end());
  return re2_shim::All(g.begin(), g.end(), a...);
}
#endif
#endif
