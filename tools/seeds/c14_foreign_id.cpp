#include "CellCollection.h"
#include "demo.h"
int main() {
  podio::Frame f;
  CellCollection a, b;
  a.create(1ull, 2.0);
  b.create(3ull, 4.0);
  b.setID(77);
  auto& fa = f.put(std::move(a), "a");
  auto& fb = f.put(std::move(b), "b");
  CHECK(f.getName(fa) == "a" && f.getName(fb) == "b", "names of the collections");
  CHECK(fa.getID() != fb.getID(), "different IDs");
  CHECK(f.getCollectionIDTableForWrite().collectionID("b") == fb.getID(), "ID table");
  CHECK(fb[0].id().collectionID == fb.getID(), "ID of the objects");
}
