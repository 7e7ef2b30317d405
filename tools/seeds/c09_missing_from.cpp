#include "ClusterTrackLinkCollection.h"
#include "ClusterCollection.h"
#include "TrackCollection.h"
#include "demo.h"
int main() {
  podio::Frame f;
  ClusterCollection cl;
  TrackCollection tr;
  ClusterTrackLinkCollection links;
  for (int i = 0; i < 2; ++i) {
    cl.create();
    tr.create();
  }
  for (int i = 0; i < 2; ++i) {
    auto l = links.create();
    l.setFrom(cl[i]);
    l.setTo(tr[1 - i]);
    l.setWeight(i + 0.5f);
  }
  auto& fc = f.put(std::move(cl), "c");
  auto& ft = f.put(std::move(tr), "t");
  auto& fl = f.put(std::move(links), "l");
  for (int keep = 1; keep < 4; ++keep) {
    RawData d;
    if (keep & 1)
      d.add(store<ClusterData, float, int>(fc, "c"));
    if (keep & 2)
      d.add(store<TrackData>(ft, "t"));
    d.add(store<podio::LinkData>(fl, "l"));
    auto g = readFrame(std::move(d));
    auto& rl = g.get<ClusterTrackLinkCollection>("l");
    CHECK(rl.size() == 2, "size");
    for (int i = 0; i < 2; ++i) {
      CHECK(rl[i].getWeight() == i + 0.5f, "weight");
      if (keep & 1)
        CHECK(rl[i].getFrom() == g.get<ClusterCollection>("c")[i], "from");
      else
        CHECK(!rl[i].getFrom().isAvailable(), "from is not available");
      if (keep & 2)
        CHECK(rl[i].getTo() == g.get<TrackCollection>("t")[1 - i], "to");
      else
        CHECK(!rl[i].getTo().isAvailable(), "to is not available");
    }
  }
}
