#include "demo.h"
int main() {
  podio::GenericParameters p;
  p.set("k", std::vector<int>{1, 2});
  CHECK(p.get<std::vector<int>>("k")->size() == 2, "set");
  p.set("k", std::vector<int>{});
  CHECK(p.get<std::vector<int>>("k").has_value(), "still there");
  CHECK(p.get<std::vector<int>>("k")->empty(), "empty");
  CHECK(p.getN<int>("k") == 0 && !p.get<int>("k").has_value(), "no single value");
}
