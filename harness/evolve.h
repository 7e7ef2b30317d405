// What the I/O backend does with members while it reads older versions: members are matched by name, numbers are converted,
// classes are converted member by member, and the rules of the dictionary are applied on top. Classes of different names are
// connected by rules only. Included by the generated header with the rules.
#pragma once
#include <array>
#include <type_traits>
template <typename T>
struct isArray : std::false_type {};
template <typename T, size_t N>
struct isArray<std::array<T, N>> : std::true_type {};

#define EV_MEMBER(m)                                                                                                   \
  if constexpr (requires { o.m; } && requires { n.m; })                                                                \
    evolve(o.m, n.m);
template <typename Old, typename New>
void evolve(const Old& o, New& n) {
  if constexpr (std::is_arithmetic_v<New> && std::is_arithmetic_v<Old>) {
    n = static_cast<New>(o);
  } else if constexpr (isArray<Old>::value && isArray<New>::value) {
    for (size_t i = 0; i < n.size() && i < o.size(); ++i)
      evolve(o[i], n[i]);
  } else if constexpr (std::is_class_v<New> && std::is_class_v<Old>) {
    // all member names of all versions of the model
    if constexpr (SameClass<Old, New>::value || Rules<Old, New>::any) {
      EV_MEMBERS
    }
    Rules<Old, New>::apply(o, n);
  }
}
