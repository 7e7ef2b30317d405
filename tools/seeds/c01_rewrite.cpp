#include "CellCollection.h"
#include "demo.h"
int main() {
  podio::Frame f;
  CellCollection a;
  for (int i = 0; i < 3; ++i)
    a.create(i + 1ull, i * 1.0);
  auto& fa = f.put(std::move(a), "a");
  RawData d;
  d.add(store<CellData>(fa, "a"));
  auto g = readFrame(RawData(d));
  RawData d2;
  d2.add(store<CellData>(*g.getCollectionForWrite("a"), "a"));
  auto h = readFrame(std::move(d2));
  auto& ra = h.get<CellCollection>("a");
  CHECK(ra.size() == 3, "number of objects");
  for (int i = 0; i < 3; ++i)
    CHECK(ra[i].cellID() == i + 1ull && ra[i].energy() == i * 1.0, "values");
}
