#include "CellCollection.h"
#include "demo.h"
int main() {
  podio::Frame f;
  CellCollection a, b;
  for (int i = 0; i < 2; ++i) {
    a.create(i + 1ull, i * 1.0);
    b.create(i + 11ull, i * 2.0);
  }
  auto& fa = f.put(std::move(a), "a");
  auto& fb = f.put(std::move(b), "b");
  CellCollection s;
  s.setSubsetCollection();
  s.push_back(fb[1]);
  s.push_back(fa[1]);
  s.push_back(fa[0]);
  auto& fs = f.put(std::move(s), "s");
  for (bool withB : {true, false}) {
    RawData d;
    d.add(store<CellData>(fa, "a"));
    if (withB)
      d.add(store<CellData>(fb, "b"));
    d.add(store<CellData>(fs, "s"));
    auto g = readFrame(std::move(d));
    auto& rs = g.get<CellCollection>("s");
    auto& ra = g.get<CellCollection>("a");
    CHECK(rs.size() == 3, "size of the subset");
    CHECK(rs[0].isAvailable() == withB, "only available objects");
    CHECK(rs[1] == ra[1] && rs[2] == ra[0], "positions");
  }
}
