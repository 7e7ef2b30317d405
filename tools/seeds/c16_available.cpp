#include "CellCollection.h"
#include "demo.h"
#include <algorithm>
#include <thread>
int main() {
  podio::Frame f;
  RawData d;
  std::vector<std::string> names;
  for (int i = 0; i < 12; ++i) {
    CellCollection c;
    c.create(1ull, 2.0);
    names.push_back("c" + std::to_string(i));
    auto& fc = f.put(std::move(c), names.back());
    d.add(store<CellData>(fc, names.back()));
  }
  for (int r = 0; r < 20; ++r) {
    auto g = readFrame(RawData(d));
    std::thread t([&] {
      for (auto& n : names)
        g.get(n);
    });
    for (int k = 0; k < 10; ++k) {
      auto av = g.getAvailableCollections();
      std::sort(av.begin(), av.end());
      CHECK(av.size() == names.size(), "every collection once");
      CHECK(std::unique(av.begin(), av.end()) == av.end(), "no collection twice");
    }
    t.join();
  }
}
