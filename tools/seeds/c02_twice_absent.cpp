#include "CellCollection.h"
#include "ClusterCollection.h"
#include "demo.h"
int main() {
  podio::Frame f;
  CellCollection cells;
  cells.create();
  cells.create();
  ClusterCollection a, b;
  for (auto* c : {&a, &b})
    for (int i = 0; i < 2; ++i) {
      auto cl = c->create();
      cl.energy(i + 0.5);
      cl.seed(cells[i]);
      cl.addcells(cells[1 - i]);
    }
  auto& fc = f.put(std::move(cells), "cells");
  auto& fa = f.put(std::move(a), "a");
  auto& fb = f.put(std::move(b), "b");
  RawData d; // the cells are known, but they have not been read
  d.ids.push_back(fc.getID());
  d.names.push_back("cells");
  d.add(store<ClusterData, float, int>(fa, "a"));
  d.add(store<ClusterData, float, int>(fb, "b"));
  auto g = readFrame(std::move(d));
  for (const char* n : {"a", "b"}) {
    auto& c = g.get<ClusterCollection>(n);
    CHECK(c.size() == 2, "size");
    for (int i = 0; i < 2; ++i) {
      CHECK(c[i].energy() == i + 0.5, "energy");
      CHECK(!c[i].seed().isAvailable(), "the seed is not available");
    }
  }
}
