#pragma once
// fmt, as far as it is needed: replacement fields become the plain text of their argument, without padding
#include <concepts>
#include <cstdio>
#include <string>
#include <string_view>
#include <vector>
namespace fmt {
template <typename T>
struct formatter {};
struct ostream_formatter {};
inline std::string& out() { // what has been printed to stdout
  static std::string o;
  return o;
}
inline std::string& err() {
  static std::string e;
  return e;
}
template <typename T>
std::string text(const T& v) {
  if constexpr (std::same_as<T, bool>)
    return v ? "true" : "false";
  else if constexpr (std::same_as<T, char>)
    return std::string(1, v);
  else if constexpr (std::integral<T>)
    return std::to_string(v);
  else if constexpr (std::floating_point<T>)
    return v == T(int(v)) ? std::to_string(int(v)) : "?";
  else if constexpr (std::convertible_to<T, std::string_view>)
    return std::string(std::string_view(v));
  else
    return "v";
}
inline std::string put(std::string_view f, const std::vector<std::string>& args) {
  std::string r;
  size_t a = 0;
  for (size_t i = 0; i < f.size(); ++i) {
    if ((f[i] == '{' || f[i] == '}') && i + 1 < f.size() && f[i + 1] == f[i]) {
      r += f[i++];
      continue;
    }
    if (f[i] != '{') {
      r += f[i];
      continue;
    }
    size_t n = 0;
    bool given = false; // {2}
    for (; f[i + 1] >= '0' && f[i + 1] <= '9'; ++i, given = true)
      n = n * 10 + (f[i + 1] - '0');
    r += args.at(given ? n : a++);
    while (f[++i] != '}')
      if (f[i] == '{') {
        if (f[i + 1] == '}')
          a++; // the width
        while (f[i] != '}')
          ++i;
      }
  }
  return r;
}
template <typename R>
std::string join(const R& range, std::string_view sep) {
  std::string r;
  bool first = true;
  for (const auto& e : range) {
    if (!first)
      r += sep;
    first = false;
    r += text(e);
  }
  return r;
}
template <typename... T>
std::string format(std::string_view f, const T&... v) {
  return put(f, {text(v)...});
}
template <typename O, typename... T>
O format_to(O o, std::string_view f, const T&... v) {
  for (char c : put(f, {text(v)...}))
    *o++ = c;
  return o;
}
template <typename... T>
void print(std::string_view f, const T&... v) {
  out() += put(f, {text(v)...});
}
template <typename... T>
void println(std::string_view f, const T&... v) {
  out() += put(f, {text(v)...}) + '\n';
}
template <typename... T>
void print(FILE* o, std::string_view f, const T&... v) {
  (o == stderr ? err() : out()) += put(f, {text(v)...});
}
template <typename... T>
void println(FILE* o, std::string_view f, const T&... v) {
  (o == stderr ? err() : out()) += put(f, {text(v)...}) + '\n';
}
} // namespace fmt
