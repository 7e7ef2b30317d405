#include "ClusterTrackLinkCollection.h"
#include "ClusterCollection.h"
#include "TrackCollection.h"
#include "demo.h"
#include "podio/LinkNavigator.h"
int main() {
  ClusterCollection cl;
  TrackCollection tr;
  for (int i = 0; i < 3; ++i) {
    cl.create();
    tr.create();
  }
  ClusterTrackLinkCollection links;
  auto add = [&](int f, int t, float w) {
    auto l = links.create();
    l.setFrom(cl[f]);
    l.setTo(tr[t]);
    l.setWeight(w);
  };
  add(0, 0, 1.f);
  add(1, 0, 2.f);
  add(0, 1, 3.f);
  add(2, 0, 4.f);
  add(1, 2, 5.f);
  add(1, 2, 6.f);
  podio::LinkNavigator nav(links);
  CHECK(nav.getLinkedFrom(tr[0]).size() == 3, "number of linked objects");
  auto from = nav.getLinkedFrom(tr[2]);
  CHECK(from.size() == 2 && from[0].o == cl[1] && from[1].o == cl[1], "every link is found");
  CHECK(from[0].weight + from[1].weight == 11.f && from[0].weight * from[1].weight == 30.f, "weights");
  CHECK(nav.getLinkedTo(cl[1]).size() == 3 && nav.getLinkedTo(cl[0]).size() == 2, "other direction");
  CHECK(nav.getLinkedFrom(tr[1]).size() == 1, "other object");
}
