#include "nlohmann/json.hpp"
#include "ClusterCollection.h"
#include "CellCollection.h"
#include "demo.h"
int main() {
  podio::Frame f;
  CellCollection a, b;
  a.create(1ull, 1.0);
  b.create(2ull, 2.0);
  ClusterCollection cl;
  auto c = cl.create();
  c.addcells(a[0]);
  c.addcells(b[0]);
  c.addcells(a[0]);
  auto& fa = f.put(std::move(a), "a");
  auto& fb = f.put(std::move(b), "b");
  auto& fc = f.put(std::move(cl), "clusters");
  for (bool withB : {true, false}) {
    RawData d;
    d.add(store<CellData>(fa, "a"));
    if (withB)
      d.add(store<CellData>(fb, "b"));
    d.add(store<ClusterData, float, int>(fc, "clusters"));
    auto g = readFrame(std::move(d));
    auto& rc = g.get<ClusterCollection>("clusters");
    nlohmann::json j(rc);
    auto& cells = j[0]["cells"];
    CHECK(cells.size() == rc[0].cells_size() && cells.size() == 3, "one entry per relation");
    for (size_t i = 0; i < 3; ++i)
      CHECK(cells[i]["index"] == rc[0].cells(i).id().index && cells[i]["collectionID"] == rc[0].cells(i).id().collectionID, "identity");
  }
}
