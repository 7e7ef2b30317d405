#include "c43.h"
int main() {
  for (g_entries = 1; g_entries < 14; ++g_entries)
    for (unsigned slots = 1; slots <= g_entries && slots < 9; ++slots) {
      podio::DataSource src(std::vector<std::string>{"a.root"});
      ROOT::RDF::RDataSource& ds = src;
      ds.SetNSlots(slots);
      std::vector<int> seen(g_entries);
      ds.Initialize();
      for (auto r = ds.GetEntryRanges(); !r.empty(); r = ds.GetEntryRanges())
        for (auto& [first, last] : r) {
          CHECK(first <= last && last <= g_entries, "ranges are within the entries");
          for (auto e = first; e < last; ++e)
            seen[e]++;
        }
      for (int s : seen)
        CHECK(s == 1, "every entry is seen once");
    }
}
