#include "RunCollectionInfoCollection.h"
#include "RunCollection.h"
#include "podio/DatamodelRegistry.h"
#include "demo.h"
int main() {
  auto& r = podio::DatamodelRegistry::instance();
  for (std::string n : {"RunCollectionInfo", "RunCollectionInfoCollection"}) {
    auto a = r.getRelationNames(n);
    CHECK(a.relations.size() == 1 && a.relations[0] == "others", "relations");
    CHECK(a.vectorMembers.size() == 1 && a.vectorMembers[0] == "shape", "vector members");
  }
  for (std::string n : {"Run", "RunCollection"}) {
    auto b = r.getRelationNames(n);
    CHECK(b.relations.size() == 1 && b.relations[0] == "info" && b.vectorMembers.empty(), "relations");
  }
}
