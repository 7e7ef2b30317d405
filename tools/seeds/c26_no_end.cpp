#include "nlohmann/json.hpp"
#include "ClusterCollection.h"
#include "ClusterTrackLinkCollection.h"
#include "TrackCollection.h"
#include "demo.h"
int main() {
  ClusterCollection cl;
  TrackCollection tr;
  cl.create();
  tr.create();
  cl.setID(4);
  tr.setID(5);
  ClusterTrackLinkCollection links;
  for (int ends = 0; ends < 4; ++ends) {
    auto l = links.create();
    if (ends & 1)
      l.setFrom(cl[0]);
    if (ends & 2)
      l.setTo(tr[0]);
  }
  nlohmann::json j(links);
  CHECK(j.size() == 4, "one entry per link");
  for (int ends = 0; ends < 4; ++ends)
    for (const char* e : {"from", "to"}) {
      CHECK(j[ends].contains(e), "both ends are there");
      const auto id = e[0] == 'f' ? links[ends].getFrom().getObjectID() : links[ends].getTo().getObjectID();
      CHECK(j[ends][e]["index"] == id.index && j[ends][e]["collectionID"] == id.collectionID, "identity");
    }
}
