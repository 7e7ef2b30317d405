#include "CellCollection.h"
#include "demo.h"
#include <new>
static long live = 0;
void* operator new(size_t n) {
  ++live;
  return std::malloc(n ? n : 1);
}
void operator delete(void* p) noexcept {
  if (p)
    --live;
  std::free(p);
}
void operator delete(void* p, size_t) noexcept {
  operator delete(p);
}
int main() {
  for (int order = 0; order < 3; ++order) {
    const long before = live;
    {
      auto coll = std::make_unique<CellCollection>();
      auto cell = std::make_unique<MutableCell>(7ull, 1.5);
      Cell other = *cell;
      if (order)
        coll->push_back(*cell);
      if (order == 1)
        coll.reset();
      else
        CHECK(other.cellID() == 7, "readable");
      cell.reset();
      if (order == 2)
        CHECK((*coll)[0].cellID() == 7, "owned by the collection");
    }
    CHECK(live == before, "everything is released");
  }
}
