#include "podio/utilities/Glob.h"
#include "demo.h"
int main() {
  using podio::utils::is_glob_pattern;
  CHECK(!is_glob_pattern("abc") && is_glob_pattern("a*") && !is_glob_pattern("a\\*"), "simple cases");
  CHECK(is_glob_pattern("a\\\\*"), "the backslash is escaped, not the wildcard");
  CHECK(!is_glob_pattern("a\\\\\\*"), "both are escaped");
}
