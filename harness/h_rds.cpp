// The data source of RDataFrame, on readers that have their entries in memory; driven as RDataFrame's event loop does
#include "io.h"
#include "podio/Reader.h"
#include "podio/UserDataCollection.h"
#include "podio/utilities/Glob.h"
#include <glob.h>
#include "podio/DataSource.h"
#include "DataSource.cc"
using namespace vio;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif
using Ints = podio::UserDataCollection<int32_t>;
using Doubles = podio::UserDataCollection<double>;

static size_t g_entries = 0; // of the files
static int g_made = 0;
static std::vector<std::string> g_files;
static int32_t ints(size_t entry) { return 100 + (int)entry; }
static double doubles(size_t entry) { return 0.5 + entry; }

struct MemReader {
  std::unique_ptr<RawData> readNextEntry(std::string_view, const std::vector<std::string>& = {}) { return nullptr; }
  std::unique_ptr<RawData> readEntry(std::string_view cat, size_t index, const std::vector<std::string>& colls = {}) {
    VP_ASSERT(cat == "events", "data frames are made of events");
    if (index >= g_entries)
      return nullptr;
    auto wanted = [&](const char* n) { return colls.empty() || std::ranges::find(colls, n) != colls.end(); };
    podio::Frame out;
    Ints i;
    i.push_back(ints(index));
    Doubles d;
    d.push_back(doubles(index));
    out.put(std::move(i), "i");
    out.put(std::move(d), "d");
    auto raw = std::make_unique<RawData>();
    if (wanted("i"))
      raw->add(store<int32_t>(*out.getCollectionForWrite("i"), "i"));
    if (wanted("d"))
      raw->add(store<double>(*out.getCollectionForWrite("d"), "d"));
    return raw;
  }
  size_t getEntries(std::string_view cat) const { return cat == "events" ? g_entries : 0; }
  podio::version::Version currentFileVersion() const { return {}; }
  std::optional<podio::version::Version> currentFileVersion(std::string_view) const { return std::nullopt; }
  std::vector<std::string_view> getAvailableCategories() const { return {"events"}; }
  const std::string_view getDatamodelDefinition(std::string_view) const { return {}; }
  std::vector<std::string> getAvailableDatamodels() const { return {}; }
};
namespace podio {
template <typename T>
Reader::Reader(std::unique_ptr<T> reader) : m_self(std::make_unique<ReaderModel<T>>(std::move(reader))) {
}
Reader makeReader(const std::vector<std::string>& files) {
  VP_ASSERT(files == g_files, "all readers read the files of the data source");
  g_made++;
  return Reader(std::make_unique<MemReader>());
}
Reader makeReader(const std::string& file) { return makeReader(std::vector<std::string>{file}); }
} // namespace podio

using Source = ROOT::RDF::RDataSource;

// one event loop: what RLoopManager does, with the ranges on any slots
template <typename F>
static std::vector<int> eventLoop(Source& ds, int nSlots, F&& check) {
  std::vector<int> seen(g_entries + 1);
  ds.Initialize();
  for (auto ranges = ds.GetEntryRanges(); !ranges.empty(); ranges = ds.GetEntryRanges()) {
    for (auto& [first, last] : ranges) {
      const int slot = vp_choose(nSlots, "slot");
      ds.InitSlot(slot, first);
      for (auto e = first; e < last; ++e) {
        VP_ASSERT(e < g_entries, "only entries of the files are asked for");
        if (ds.SetEntry(slot, e)) {
          seen[e]++;
          check(slot, e);
        }
      }
      ds.FinalizeSlot(slot);
    }
  }
  ds.Finalize();
  return seen;
}
extern "C" void hm_rds_loops() {
  g_entries = vp_choose(VP_DEPTH ? 6 : 5, "entries");
  const int asked = vp_choose(VP_DEPTH ? 7 : 6, "asked for") - 1;
  const int nSlots = 1 + vp_choose(3, "slots");
  g_files = {"a.root", "b.root"};
  std::vector<std::string> colls;
  const int which = vp_choose(3, "collections");
  if (which == 1)
    colls = {"i", "d"};
  else if (which == 2)
    colls = {"i"};
  std::unique_ptr<podio::DataSource> src;
  bool refused = false;
  try {
    src = std::make_unique<podio::DataSource>(g_files, asked, colls);
  } catch (const std::runtime_error&) {
    refused = true;
  }
  VP_ASSERT(refused == (g_entries == 0 || asked == 0), "a data source needs entries");
  if (refused)
    return vp_cover("refused");
  Source& ds = *src;
  const size_t n = asked < 0 ? g_entries : std::min<size_t>(asked, g_entries);
  // the columns
  VP_ASSERT(ds.GetColumnNames().size() == (which == 2 ? 1 : 2), "the columns are the collections");
  VP_ASSERT(ds.HasColumn("i") && ds.HasColumn("d") == (which != 2) && !ds.HasColumn("x") && !ds.HasColumn(""), "the columns are the collections that were asked for");
  VP_ASSERT(ds.GetTypeName("i") == Ints::typeName && (which == 2 || ds.GetTypeName("d") == Doubles::typeName), "with their types");
  VP_ASSERT(vp_throws<std::runtime_error>([&] { ds.GetTypeName("x"); }) && vp_throws<std::runtime_error>([&] { ds.GetColumnReaders<Ints>("x"); }), "others are refused");
  refused = false;
  try {
    ds.SetNSlots(nSlots);
  } catch (const std::runtime_error&) {
    refused = true;
  }
  VP_ASSERT(refused == ((size_t)nSlots > n), "there is an entry for every slot");
  if (refused)
    return;
  const int order = which == 2 ? 0 : vp_choose(3, "second column"); // after the first one, before it, only for the second loop
  const bool late = order == 2;
  std::vector<const Doubles**> rd;
  if (order == 1)
    rd = ds.GetColumnReaders<const Doubles>("d");
  auto ri = ds.GetColumnReaders<const Ints>("i");
  VP_ASSERT((int)ri.size() == nSlots, "one reader per slot");
  if (which != 2 && !order)
    rd = ds.GetColumnReaders<const Doubles>("d");
  long last[4] = {-1, -1, -1, -1};
  for (int loop = 0; loop < 2; ++loop) {
    if (loop && late)
      rd = ds.GetColumnReaders<const Doubles>("d");
    auto seen = eventLoop(ds, nSlots, [&](int slot, size_t entry) {
      last[slot] = entry;
      for (int s = 0; s < nSlots; ++s) {
        if (last[s] < 0)
          continue;
        const auto* c = *ri[s];
        VP_ASSERT(c && c->size() == 1 && (*c)[0] == ints(last[s]), "each slot sees the collection of its entry");
        if (!rd.empty() && (!loop || !late || s == slot)) {
          const auto* d = *rd[s];
          VP_ASSERT(d && d->size() == 1 && (*d)[0] == doubles(last[s]), "and so in all columns");
        }
      }
    });
    for (size_t e = 0; e < seen.size(); ++e)
      VP_ASSERT(seen[e] == (e < n), "every event loop sees every entry once");
  }
  if (nSlots == 3 && n == 4 && late)
    vp_cover("done");
}

// any number of entries
extern "C" void hm_rds_ranges() {
  g_entries = vp_sym<uint64_t>("entries");
  VP_ASSUME(g_entries > 0 && g_entries < (uint64_t(1) << 40));
  const int asked = vp_sym<int>("asked for");
  VP_ASSUME(asked != 0);
  const unsigned nSlots = 1 + vp_choose(VP_DEPTH ? 8 : 4, "slots");
  const size_t n = asked < 0 || uint64_t(asked) > g_entries ? g_entries : asked;
  VP_ASSUME(n >= nSlots);
  g_files = {"a.root"};
  podio::DataSource src(g_files, asked);
  Source& ds = src;
  ds.SetNSlots(nSlots);
  for (int loop = 0; loop < 2; ++loop) {
    ds.Initialize();
    uint64_t sum = 0;
    std::vector<std::pair<ULong64_t, ULong64_t>> all;
    for (auto ranges = ds.GetEntryRanges(); !ranges.empty(); ranges = ds.GetEntryRanges()) {
      VP_ASSERT(all.size() + ranges.size() <= 64, "there are not many more ranges than slots");
      for (auto& r : ranges) {
        VP_ASSERT(r.first < r.second && r.second <= n, "ranges are in the requested entries");
        for (auto& o : all)
          VP_ASSERT(o.second <= r.first || r.second <= o.first, "ranges have no entries in common");
        all.push_back(r);
        sum += r.second - r.first;
      }
    }
    VP_ASSERT(sum == n, "the ranges have all entries");
    ds.Finalize();
  }
  vp_cover("done");
}

// the slots at the same time
static Source* g_ds;
static std::vector<const Ints**> g_readers;
static void slot(void* p) {
  const int s = *static_cast<int*>(p);
  for (size_t e = s; e < 3; e += 2) {
    g_ds->SetEntry(s, e);
    const auto* c = *g_readers[s];
    VP_ASSERT(c && (*c)[0] == ints(e), "each slot sees the collection of its entry");
  }
}
extern "C" void hm_rds_slots() {
  g_entries = 3;
  g_files = {"a.root"};
  podio::DataSource src(g_files);
  g_ds = &src;
  g_ds->SetNSlots(2);
  g_readers = g_ds->GetColumnReaders<const Ints>("i");
  int s0 = 0, s1 = 1;
  vp_spawn(slot, &s0);
  vp_spawn(slot, &s1);
  vp_join_all();
  vp_cover("done");
}

// the function users call
static std::vector<char*> g_paths;
extern "C" int glob(const char* p, int, int (*)(const char*, int), glob_t* g) {
  VP_ASSERT(std::string(p) == "dir/*.root", "the pattern is expanded");
  for (auto& f : g_files)
    g_paths.push_back(f.data());
  g->gl_pathc = g_paths.size();
  g->gl_pathv = g_paths.data();
  return 0;
}
extern "C" void globfree(glob_t*) {}
extern "C" void hm_rds_create() {
  g_entries = 1 + vp_choose(2, "entries");
  g_files = {"dir/a.root", "dir/b.root"};
  const bool one = vp_flip("pattern");
  std::vector<std::string> colls;
  if (vp_flip("collections"))
    colls = {"d"};
  auto df = one ? podio::CreateDataFrame("dir/*.root", colls) : podio::CreateDataFrame(g_files, colls);
  auto& ds = df.source();
  ds.SetNSlots(1);
  auto rd = ds.GetColumnReaders<const Doubles>("d");
  VP_ASSERT(ds.HasColumn("i") == colls.empty(), "the collections that were asked for");
  auto seen = eventLoop(ds, 1, [&](int, size_t e) { VP_ASSERT((**rd[0])[0] == doubles(e), "the collection of the entry"); });
  for (size_t e = 0; e < seen.size(); ++e)
    VP_ASSERT(seen[e] == (e < g_entries), "every entry once");
  VP_ASSERT(vp_throws<std::runtime_error>([] { podio::CreateDataFrame(std::vector<std::string>{}); }), "files are needed");
  vp_cover("done");
}
