#include "ClusterCollection.h"
#include "CellCollection.h"
#include "demo.h"
int main() {
  podio::Frame f;
  CellCollection a;
  for (int i = 0; i < 4; ++i)
    a.create(i + 1ull, i * 1.0);
  ClusterCollection cl;
  for (int k = 0; k < 3; ++k) {
    auto c = cl.create();
    for (int i = 0; i <= k; ++i) {
      c.addcells(a[i]);
      c.addshape(10.f * k + i);
    }
  }
  auto& fa = f.put(std::move(a), "a");
  auto& fc = f.put(std::move(cl), "clusters");
  RawData d;
  d.add(store<CellData>(fa, "a"));
  d.add(store<ClusterData, float, int>(fc, "clusters"));
  auto g = readFrame(std::move(d));
  auto& rc = g.get<ClusterCollection>("clusters");
  for (int k = 0; k < 3; ++k) {
    auto c = rc[k].clone();
    CHECK(c.cells_size() == k + 1u && c.shape_size() == k + 1u, "sizes of the clone");
    for (int i = 0; i <= k; ++i) {
      CHECK(c.cells(i) == rc[k].cells(i), "relations of the clone");
      CHECK(c.shape(i) == 10.f * k + i, "vector members of the clone");
    }
  }
}
