#include "CellCollection.h"
#include "demo.h"
int main() {
  CellCollection a;
  a.create(1ull, 2.0);
  MutableCell c(3ull, 4.0);
  a.push_back(c);
  a.setID(42);
  a.create(5ull, 6.0);
  MutableCell e(7ull, 8.0);
  a.push_back(e);
  for (int i = 0; i < 4; ++i) {
    CHECK(a[i].id().index == i, "index");
    CHECK(a[i].id().collectionID == 42, "collection id");
  }
}
