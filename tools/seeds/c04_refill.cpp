#include "CellCollection.h"
#include "demo.h"
int main() {
  CellCollection a;
  for (int i = 0; i < 3; ++i)
    a.create(i + 1ull, i * 1.0);
  a.setID(5);
  CellCollection s;
  s.setSubsetCollection();
  s.push_back(a[0]);
  CHECK(store<CellData>(s, "s").refs[0].size() == 1, "first write");
  s.clear();
  CHECK(s.empty(), "cleared");
  s.push_back(a[1]);
  s.push_back(a[2]);
  auto st = store<CellData>(s, "s");
  CHECK(st.refs[0].size() == 2 && st.refs[0][0] == a[1].id() && st.refs[0][1] == a[2].id(), "second write");
  CellCollection e;
  store<CellData>(e, "e");
  e.clear();
  e.create(1ull, 2.0);
  e.prepareForWrite();
  CHECK(e.getBuffers().dataAsVector<CellData>()->size() == 1, "refilled");
}
