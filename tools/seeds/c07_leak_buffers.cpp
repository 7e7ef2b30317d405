#include "ClusterCollection.h"
#include "CellCollection.h"
#include "demo.h"
#include <new>
static long live = 0;
void* operator new(size_t n) {
  ++live;
  return std::malloc(n ? n : 1);
}
void operator delete(void* p) noexcept {
  if (p)
    --live;
  std::free(p);
}
void operator delete(void* p, size_t) noexcept {
  operator delete(p);
}
int main() {
  for (bool subset : {false, true}) {
    const long before = live;
    {
      auto b = podio::CollectionBufferFactory::instance().createBuffers("ClusterCollection", 1, subset);
      CHECK(b.has_value(), "buffers");
      b->deleteBuffers(*b);
    }
    CHECK(live == before, "everything is released");
  }
}
