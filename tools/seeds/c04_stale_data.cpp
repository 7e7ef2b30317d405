#include "ClusterCollection.h"
#include "ClusterTrackLinkCollection.h"
#include "TrackCollection.h"
#include "demo.h"
int main() {
  ClusterTrackLinkCollection links;
  links.create().setWeight(1);
  links.create().setWeight(2);
  links.setID(3);
  CHECK(store<podio::LinkData>(links, "l").refs[0].size() == 2, "first time");
  links.clear();
  CHECK(links.empty(), "cleared");
  links.create().setWeight(7);
  auto s = store<podio::LinkData>(links, "l");
  CHECK(s.refs[0].size() == 1 && s.refs[1].size() == 1, "references");
  auto* d = links.getBuffers().dataAsVector<podio::LinkData>();
  CHECK(d->size() == 1 && (*d)[0].weight == 7, "data");
}
