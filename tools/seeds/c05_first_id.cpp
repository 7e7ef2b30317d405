#include "ClusterCollection.h"
#include "ClusterTrackLinkCollection.h"
#include "TrackCollection.h"
#include "demo.h"
int main() {
  ClusterTrackLinkCollection links;
  links.create().setWeight(1);
  for (uint32_t id : {7u, 42u, 42u, 9u}) {
    links.setID(id);
    links.create();
    for (size_t i = 0; i < links.size(); ++i)
      CHECK(links[i].id().index == int(i) && links[i].id().collectionID == id && links.getID() == id, "identity");
  }
}
