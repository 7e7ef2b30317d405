#include "demo.h"
int main() {
  podio::CollectionIDTable t({1, 2}, {"hits", "tracks"});
  CHECK(t.add("hits") == 1 && t.add("tracks") == 2, "stored IDs are kept");
  const auto n = t.add("new");
  CHECK(t.collectionID("new") == n && t.name(n).value() == "new" && t.add("new") == n, "new name");
  CHECK(t.names().size() == 3 && t.ids().size() == 3, "size");
}
