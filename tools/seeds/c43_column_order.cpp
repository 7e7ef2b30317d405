#include "c43.h"
int main() {
  g_entries = 3;
  std::vector<std::string> order = {"x", "y", "z"};
  do {
    podio::DataSource src(std::vector<std::string>{"a.root"});
    ROOT::RDF::RDataSource& ds = src;
    ds.SetNSlots(2);
    std::vector<std::vector<const Ints**>> readers;
    for (auto& c : order)
      readers.push_back(ds.GetColumnReaders<const Ints>(c));
    readers.push_back(ds.GetColumnReaders<const Ints>(order[0]));
    order.push_back(order[0]);
    ds.Initialize();
    for (size_t e = 0; e < g_entries; ++e) {
      ds.SetEntry(e % 2, e);
      for (size_t k = 0; k < readers.size(); ++k) {
        const auto* c = *readers[k][e % 2];
        CHECK(c && c->size() == 1 && (*c)[0] == 100 * (int)e + order[k][0], "the columns have the collections of the entry");
      }
    }
    order.pop_back();
  } while (std::next_permutation(order.begin(), order.end()));
}
