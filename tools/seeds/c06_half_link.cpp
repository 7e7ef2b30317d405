#include "ClusterCollection.h"
#include "ClusterTrackLinkCollection.h"
#include "TrackCollection.h"
#include "demo.h"
int main() {
  ClusterCollection cl;
  TrackCollection tr;
  cl.create();
  tr.create();
  for (int ends = 0; ends < 4; ++ends) {
    MutableClusterTrackLink l(0.5f);
    if (ends & 1)
      l.setFrom(cl[0]);
    if (ends & 2)
      l.setTo(tr[0]);
    for (bool relations : {true, false}) {
      auto c = l.clone(relations);
      CHECK(!(c == l) && c.getWeight() == 0.5f, "weight");
      CHECK(c.getFrom().isAvailable() == (relations && (ends & 1)), "from");
      CHECK(c.getTo().isAvailable() == (relations && (ends & 2)), "to");
      if (relations && (ends & 1))
        CHECK(c.getFrom() == cl[0], "same from");
      if (relations && (ends & 2))
        CHECK(c.getTo() == tr[0], "same to");
    }
  }
}
