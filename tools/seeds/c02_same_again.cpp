#include "CellCollection.h"
#include "ClusterCollection.h"
#include "demo.h"
int main() {
  podio::Frame f;
  CellCollection cells;
  for (int i = 0; i < 3; ++i)
    cells.create(i + 1ull, 1.0 * i);
  ClusterCollection cl;
  const std::vector<std::vector<int>> rel = {{0, 1}, {1, 2, 2}, {0}};
  for (auto& r : rel) {
    auto c = cl.create();
    for (auto i : r)
      c.addcells(cells[i]);
  }
  auto& fa = f.put(std::move(cells), "a");
  auto& fc = f.put(std::move(cl), "clusters");
  RawData d;
  d.add(store<CellData>(fa, "a"));
  d.add(store<ClusterData, float, int>(fc, "clusters"));
  auto g = readFrame(std::move(d));
  auto& ra = g.get<CellCollection>("a");
  auto& rc = g.get<ClusterCollection>("clusters");
  CHECK(rc.size() == rel.size(), "size");
  for (size_t i = 0; i < rel.size(); ++i) {
    CHECK(rc[i].cells_size() == rel[i].size(), "number of relations");
    for (size_t j = 0; j < rel[i].size(); ++j)
      CHECK(rc[i].cells(j).id().index == rel[i][j] && rc[i].cells(j) == ra[rel[i][j]], "related object");
  }
}
