#include "ClusterCollection.h"
#include "CellCollection.h"
#include "demo.h"
int main() {
  podio::Frame f;
  CellCollection a, b;
  for (int i = 0; i < 3; ++i) {
    a.create(i + 1ull, i * 1.0);
    b.create(i + 11ull, i * 2.0);
  }
  ClusterCollection cl;
  auto c0 = cl.create();
  c0.addcells(a[0]);
  c0.addcells(b[1]);
  c0.addcells(a[2]);
  auto c1 = cl.create();
  c1.addcells(a[1]);
  c1.addcells(a[0]);
  auto& fa = f.put(std::move(a), "a");
  auto& fb = f.put(std::move(b), "b");
  auto& fc = f.put(std::move(cl), "clusters");
  for (bool withB : {true, false}) {
    RawData d;
    d.add(store<CellData>(fa, "a"));
    if (withB)
      d.add(store<CellData>(fb, "b"));
    d.add(store<ClusterData, float, int>(fc, "clusters"));
    auto g = readFrame(std::move(d));
    auto& rc = g.get<ClusterCollection>("clusters");
    auto& ra = g.get<CellCollection>("a");
    CHECK(rc[0].cells_size() == 3 && rc[1].cells_size() == 2, "number of relations");
    CHECK(rc[0].cells(0) == ra[0], "first");
    CHECK(rc[0].cells(1).isAvailable() == withB, "unavailable if not stored");
    CHECK(rc[0].cells(2) == ra[2], "third");
    CHECK(rc[1].cells(0) == ra[1] && rc[1].cells(1) == ra[0], "other object");
  }
}
