// Helpers for strings: patterns, splitting, sorting
#include "vp.h"
#include "podio/utilities/Glob.h"
#include "podio/utilities/MiscHelpers.h"
#include "podio/utilities/StringKeyMap.h"
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif
static const int L = VP_DEPTH ? 6 : 4;
static std::string sym(int len, const char* n) {
  std::string s;
  for (int i = 0; i < len; ++i)
    s += vp_sym<char>(n);
  return s;
}
extern "C" void hm_glob() {
  const int n = vp_choose(L + 1, "n");
  std::string s = sym(n, "c");
  const bool got = podio::utils::is_glob_pattern(s);
  // a wildcard that is preceded by an even number of backslashes
  bool want = false;
  for (int i = 0; i < n; ++i) {
    int bs = 0;
    for (int k = i - 1; k >= 0 && s[k] == '\\'; --k)
      bs++;
    want = want | ((s[i] == '*' || s[i] == '?' || s[i] == '[' || s[i] == '{') && bs % 2 == 0);
  }
  VP_ASSERT(got == want, "a name is a pattern if it has a wildcard that is not escaped");
  if (got)
    vp_cover("pattern");
  else
    vp_cover("no pattern");
}
extern "C" void hm_split() {
  const int n = vp_choose(L + 1, "n");
  std::string s = sym(n, "c");
  const char d = vp_sym<char>("delimiter");
  std::string joined;
  int k = 0, nd = 0;
  for (char c : s)
    nd += c == d;
  bool clean = true;
  for (const auto part : podio::utils::splitString(s, d)) {
    if (k++)
      joined += d;
    joined += part;
    for (char c : part)
      clean &= c != d;
  }
  VP_ASSERT(joined == s || n == 0, "the parts and the delimiters make up the whole");
  VP_ASSERT(clean, "no part contains the delimiter");
  VP_ASSERT(k == nd + 1 || (n == 0 && k == 0), "as many parts as there are delimiters, plus one");
  vp_cover("done");
}
static int low(char c) { return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : (unsigned char)c; }
static int cmp(const std::string& a, const std::string& b) {
  for (size_t i = 0; i < a.size() && i < b.size(); ++i)
    if (low(a[i]) != low(b[i]))
      return low(a[i]) < low(b[i]) ? -1 : 1;
  return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
extern "C" void hm_sort() {
  std::vector<std::string> v;
  const int n = vp_choose(4, "n");
  for (int i = 0; i < n; ++i) {
    v.push_back(sym(vp_choose(3, "length"), "c"));
    for (char c : v.back())
      VP_ASSUME(c >= '0' && c <= 'z');
  }
  auto s = podio::utils::sortAlphabeticaly(v);
  VP_ASSERT((int)s.size() == n, "nothing is lost");
  for (int i = 0; i + 1 < n; ++i)
    VP_ASSERT(cmp(s[i], s[i + 1]) <= 0, "sorted without regard to case");
  for (auto& x : v)
    VP_ASSERT(std::count(v.begin(), v.end(), x) == std::count(s.begin(), s.end(), x), "the same strings as before");
  vp_cover("done");
}
extern "C" void hm_keymap() {
  podio::StringKeyMap<int> m;
  std::string a = sym(vp_choose(3, "length"), "a"), b = sym(vp_choose(3, "length"), "b");
  m[a] = 1;
  auto it = m.find(std::string_view(b));
  VP_ASSERT((it != m.end()) == (a == b) && m.contains(std::string_view(b)) == (a == b) && m.contains(b) == (a == b), "strings and views find the same entries");
  VP_ASSERT((podio::detail::TransparentStringHash{}(std::string_view(a)) == podio::detail::TransparentStringHash{}(a)), "strings and views have the same hash");
  vp_cover("done");
}
