#include "ClusterCollection.h"
#include "demo.h"
int main() {
  MutableCluster c;
  c.dims({1, 2, 3, 4});
  c.dims(1, 7);
  CHECK((c.dims() == std::array<int, 4>{1, 7, 3, 4}), "element");
  CHECK(throws([&] { c.dims(4, 9); }) && throws([&] { c.dims(size_t(-1), 9); }), "outside");
  CHECK((c.dims() == std::array<int, 4>{1, 7, 3, 4}), "unchanged");
}
