#include "ClusterTrackLinkCollection.h"
#include "ClusterCollection.h"
#include "TrackCollection.h"
#include "demo.h"
#include <set>
int main() {
  MutableClusterTrackLink a, b;
  ClusterTrackLink ca = a, cb = b;
  CHECK(!(ca == cb), "different links");
  CHECK(ca < cb || cb < ca, "ordered");
  std::set<ClusterTrackLink> s{ca, cb, ca};
  CHECK(s.size() == 2, "set of links");
}
