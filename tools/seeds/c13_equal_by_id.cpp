#include "Energetic.h"
#include "CellCollection.h"
#include "TrackCollection.h"
#include "demo.h"
int main() {
  CellCollection c;
  auto c0 = c.create(1ull, 2.0);
  auto c1 = c.create(1ull, 2.0);
  MutableCell u(1ull, 2.0), v(1ull, 2.0);
  MutableTrack t(2.0);
  Energetic e0(c0), e1(c1), eu(u), ev(v), et(t), eu2(u);
  CHECK(e0 == Energetic(c0) && e0 != e1, "tracked");
  CHECK(eu == eu2 && !(eu != eu2), "same untracked object");
  CHECK(eu != ev && !(eu == ev), "different untracked objects");
  CHECK(eu != et && e0 != et, "different types");
}
