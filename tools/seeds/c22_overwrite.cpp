#include "demo.h"
int main() {
  auto& f = podio::CollectionBufferFactory::mutInstance();
  auto fn = [](unsigned v) {
    return [v](bool) {
      podio::CollectionReadBuffers b;
      b.schemaVersion = v;
      return b;
    };
  };
  f.registerCreationFunc("demo::A", 1, fn(1));
  f.registerCreationFunc("demo::A", 2, fn(2));
  f.registerCreationFunc("demo::A", 3, fn(3));
  for (unsigned v = 1; v < 4; ++v)
    CHECK(f.createBuffers("demo::A", v, false)->schemaVersion == v, "own function for every version");
  CHECK(!f.createBuffers("demo::A", 4, false).has_value(), "unknown version");
}
