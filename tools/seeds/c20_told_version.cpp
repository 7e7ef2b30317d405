#include "demo.h"
int main() {
  auto& se = podio::SchemaEvolution::mutInstance();
  static std::vector<unsigned> seen;
  auto fn = [](podio::CollectionReadBuffers&& b, podio::SchemaVersionT v) {
    seen.push_back(v);
    return std::move(b);
  };
  for (unsigned v = 1; v < 5; ++v)
    se.registerEvolutionFunc("demo::TypeCollection", v, 5, fn);
  for (unsigned v = 1; v < 8; ++v) {
    seen.clear();
    se.evolveBuffers(podio::CollectionReadBuffers{}, v, "demo::TypeCollection");
    CHECK(seen.size() == (v < 5) && (seen.empty() || seen[0] == v), "called once with the version of the buffers");
  }
}
