#include "ClusterCollection.h"
#include "CellCollection.h"
#include "demo.h"
int main() {
  podio::Frame f;
  CellCollection a, b;
  for (int i = 0; i < 3; ++i) {
    a.create(i + 1ull, i * 1.0);
    b.create(i + 11ull, i * 2.0);
  }
  ClusterCollection cl;
  for (int i = 0; i < 5; ++i)
    cl.create();
  cl[1].seed(a[2]);
  cl[2].seed(b[2]);
  cl[3].seed(b[2]);
  auto& fa = f.put(std::move(a), "a");
  auto& fb = f.put(std::move(b), "b");
  auto& fc = f.put(std::move(cl), "clusters");
  RawData d;
  d.add(store<CellData>(fa, "a"));
  d.add(store<CellData>(fb, "b"));
  d.add(store<ClusterData, float, int>(fc, "clusters"));
  auto g = readFrame(std::move(d));
  auto& rc = g.get<ClusterCollection>("clusters");
  auto& ra = g.get<CellCollection>("a");
  auto& rb = g.get<CellCollection>("b");
  CHECK(!rc[0].seed().isAvailable() && !rc[4].seed().isAvailable(), "unset");
  CHECK(rc[1].seed() == ra[2] && rc[2].seed() == rb[2] && rc[3].seed() == rb[2], "set");
}
