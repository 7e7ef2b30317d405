#include "ClusterCollection.h"
#include "ClusterTrackLinkCollection.h"
#include "TrackCollection.h"
#include "demo.h"
int main() {
  podio::Frame f;
  ClusterTrackLinkCollection links;
  for (int i = 0; i < 3; ++i)
    links.create().setWeight(i);
  auto& fl = f.put(std::move(links), "links");
  ClusterTrackLinkCollection sub;
  sub.setSubsetCollection();
  sub.push_back(fl[2]);
  sub.push_back(fl[0]);
  auto& fs = f.put(std::move(sub), "sub");
  for (int i = 0; i < 3; ++i)
    CHECK(fl[i].id().index == i && fl[i].id().collectionID == fl.getID(), "identity of the links");
  auto s = store<podio::LinkData>(fs, "sub");
  CHECK(s.refs[0].size() == 2 && s.refs[0][0] == fl[2].id() && s.refs[0][1] == fl[0].id(), "references of the subset");
}
