#include "ClusterCollection.h"
#include "CellCollection.h"
#include "demo.h"
int main() {
  podio::Frame f;
  CellCollection cells;
  cells.create(1ull, 2.0);
  ClusterCollection a, b, c;
  a.create();
  b.create();
  c.create();
  c[0].addcells(cells[0]);
  c[0].seed(cells[0]);
  b[0].addclusters(c[0]);
  a[0].addclusters(b[0]);
  auto& fx = f.put(std::move(cells), "cells");
  auto& fa = f.put(std::move(a), "a");
  auto& fb = f.put(std::move(b), "b");
  auto& fc = f.put(std::move(c), "c");
  const char* orders[][4] = {{"a", "b", "c", "cells"}, {"c", "b", "a", "cells"}, {"cells", "a", "b", "c"}, {"b", "a", "cells", "c"}};
  for (auto& o : orders) {
    RawData d;
    d.add(store<CellData>(fx, "cells"));
    d.add(store<ClusterData, float, int>(fa, "a"));
    d.add(store<ClusterData, float, int>(fb, "b"));
    d.add(store<ClusterData, float, int>(fc, "c"));
    auto g = readFrame(std::move(d));
    for (auto n : o)
      CHECK(g.get(n) != nullptr, "collection is there");
    auto ra = g.get<ClusterCollection>("a")[0];
    CHECK(ra.clusters_size() == 1 && g.get<ClusterCollection>("b")[0].clusters_size() == 1, "sizes");
    CHECK(ra.clusters(0).clusters(0) == g.get<ClusterCollection>("c")[0], "second level");
    CHECK(ra.clusters(0).clusters(0).cells(0) == g.get<CellCollection>("cells")[0], "third level");
    CHECK(ra.clusters(0).clusters(0).seed() == g.get<CellCollection>("cells")[0], "third level");
  }
}
