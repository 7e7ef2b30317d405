// podio-dump: what is asked for on the command line, and what is shown for it. Readers have their entries in memory, fmt keeps what is printed.
#include "io.h"
#include "podio/Reader.h"
#include "podio/UserDataCollection.h"
#include "podio/utilities/Glob.h"
#include "vm/HitCollection.h"
#include <cstdlib>
using namespace vio;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif
struct Exit {
  int code;
};
namespace std {
[[noreturn]] inline void vp_exit(int c) { throw Exit{c}; }
} // namespace std
using std::vp_exit;
#define exit vp_exit
#define main dump_main
#include "../tools/src/podio-dump-tool.cpp"
#undef main
#undef exit

using Ints = podio::UserDataCollection<int32_t>;
static const char* const CATS[] = {"events", "Runs", "other"}; // in the file: the first two
static int g_entries[2];
struct Read {
  int cat;
  size_t index;
};
static std::vector<Read>& reads() {
  static std::vector<Read> r;
  return r;
}
static std::string g_opened;
static bool g_stats = false;

struct DumpReader {
  std::unique_ptr<RawData> readNextEntry(std::string_view, const std::vector<std::string>& = {}) { return nullptr; }
  std::unique_ptr<RawData> readEntry(std::string_view cat, size_t index, const std::vector<std::string>& colls = {}) {
    VP_ASSERT(colls.empty(), "all collections are shown");
    const int c = cat == CATS[0] ? 0 : cat == CATS[1] ? 1 : 2;
    reads().push_back({c, index});
    if (c == 2 || index >= (size_t)g_entries[c])
      return nullptr;
    podio::Frame out;
    Ints i;
    for (int k = 0; k < 11; ++k)
      i.push_back(k);
    HitCollection hits, sub;
    hits.create();
    hits.create();
    sub.setSubsetCollection();
    sub.push_back(hits[0]);
    out.put(std::move(i), "ints");
    out.put(std::move(hits), "Hits");
    out.put(std::move(sub), "some");
    auto raw = std::make_unique<RawData>();
    raw->add(store<int32_t>(*out.getCollectionForWrite("ints"), "ints"));
    raw->add(store<HitData>(*out.getCollectionForWrite("Hits"), "Hits"));
    raw->add(store<HitData>(*out.getCollectionForWrite("some"), "some"));
    raw->params->set("b", std::vector<int>{1, 2, 3});
    raw->params->set("A", std::vector<float>{1.f});
    raw->params->set("d", std::vector<double>{1., 2.});
    raw->params->set("s", std::vector<std::string>{"x", "y", "z", "u"});
    raw->params->set("b", std::vector<std::string>{"x", "y", "z", "u", "v"});
    return raw;
  }
  size_t getEntries(std::string_view cat) const { return cat == CATS[0] ? g_entries[0] : cat == CATS[1] ? g_entries[1] : 0; }
  podio::version::Version currentFileVersion() const { return {}; }
  std::optional<podio::version::Version> currentFileVersion(std::string_view name) const {
    if (name == "edm")
      return podio::version::Version{};
    return std::nullopt;
  }
  std::vector<std::string_view> getAvailableCategories() const { return {CATS[1], CATS[0]}; }
  const std::string_view getDatamodelDefinition(std::string_view name) const { return name == "edm" ? "{def of edm}" : name == "edm2" ? "{def of edm2}" : "{}"; }
  std::vector<std::string> getAvailableDatamodels() const { return {"edm", "edm2"}; }
};
namespace podio {
template <typename T>
Reader::Reader(std::unique_ptr<T> reader) : m_self(std::make_unique<ReaderModel<T>>(std::move(reader))) {
}
Reader makeReader(const std::vector<std::string>& files) {
  VP_ASSERT(files.size() == 1, "one file");
  g_opened = files[0];
  return Reader(std::make_unique<DumpReader>());
}
Reader makeReader(const std::string& file) { return makeReader(std::vector<std::string>{file}); }
std::optional<std::map<std::string, SizeStats>> Reader::getSizeStats(std::string_view) {
  if (!g_stats)
    return std::nullopt;
  return std::map<std::string, SizeStats>{{"ints", {100, 3.f}}, {"Hits", {200, 4.f}}, {"some", {300, 5.f}}};
}
} // namespace podio

// -1: not a list of entries; -2: any; else the entries are in r
static int entriesOf(const std::string& s, std::vector<size_t>& r) {
  if (s == "-1")
    return -2;
  std::vector<size_t> nums;
  int colons = 0, commas = 0;
  bool digits = false;
  size_t v = 0;
  for (size_t i = 0; i <= s.size(); ++i) {
    if (i == s.size() || s[i] == ',' || s[i] == ':') {
      if (!digits)
        return -1;
      nums.push_back(v);
      v = 0;
      digits = false;
      if (i < s.size())
        (s[i] == ',' ? commas : colons)++;
    } else if (s[i] >= '0' && s[i] <= '9') {
      v = v * 10 + (s[i] - '0');
      digits = true;
    } else
      return -1;
  }
  if (colons > 1 || (colons && commas))
    return -1;
  if (colons) {
    if (nums[0] > nums[1])
      return -1;
    for (size_t e = nums[0]; e <= nums[1]; ++e)
      r.push_back(e);
    return 0;
  }
  r = nums;
  return 0;
}

// ---- the list of entries
extern "C" void hm_dump_entries() {
  const int n = vp_choose(VP_DEPTH ? 6 : 5, "length");
  static const char alphabet[] = {'0', '1', '2', '9', ',', ':', '-', 'x', '+', ' '};
  std::string s;
  // at most two symbols of each other kind are needed to tell all cases apart
  for (int i = 0; i < n; ++i)
    s += alphabet[vp_choose(i < 3 ? 10 : 7, "char")];
  std::vector<size_t> want, got;
  const int kind = entriesOf(s, want);
  bool refused = false;
  int code = 0;
  try {
    got = parseEventRange(s);
  } catch (const Exit& e) {
    refused = true;
    code = e.code;
  }
  VP_ASSERT(refused == (kind == -1), "exactly what is no list of entries is refused");
  if (refused) {
    VP_ASSERT(code != 0, "and reported as a failure");
    return vp_cover("refused");
  }
  if (kind == -2) {
    VP_ASSERT(got.size() == 1 && got[0] == (size_t)-1, "-1 stands for all entries");
    return;
  }
  VP_ASSERT(got == want, "the entries are the ones in the list");
  if (want.size() == 3)
    vp_cover("range");
}
// ---- single numbers
extern "C" void hm_dump_number() {
  const int n = vp_choose(VP_DEPTH ? 7 : 5, "length");
  std::string s;
  bool number = n > 0;
  size_t v = 0;
  for (int i = 0; i < n; ++i) {
    char c = vp_sym<char>("c");
    s += c;
    number = number && c >= '0' && c <= '9';
    if (number)
      v = v * 10 + (c - '0');
  }
  size_t got = 0;
  bool refused = false;
  try {
    got = parseSizeOrExit(s);
  } catch (const Exit& e) {
    refused = true;
    VP_ASSERT(e.code != 0, "a failure");
  }
  VP_ASSERT(refused == !number, "numbers are accepted, nothing else");
  VP_ASSERT(refused || got == v, "with their value");
  if (!refused && n == 3)
    vp_cover("number");
}

static int run(const std::vector<std::string>& args) {
  std::vector<std::string> a = {"podio-dump"};
  a.insert(a.end(), args.begin(), args.end());
  std::vector<char*> argv;
  for (auto& s : a)
    argv.push_back(s.data());
  argv.push_back(nullptr);
  try {
    return dump_main(a.size(), argv.data());
  } catch (const Exit& e) {
    return e.code;
  }
}
static size_t countOf(const std::string& text, const std::string& what) {
  size_t n = 0;
  for (size_t p = text.find(what); p != std::string::npos; p = text.find(what, p + 1))
    n++;
  return n;
}

// ---- the whole tool: flags in any order
extern "C" void hm_dump_args() {
  g_entries[0] = 3;
  g_entries[1] = 2;
  const int cat = vp_choose(4, "category"), ent = vp_choose(6, "entries");
  const bool longName = vp_flip("long names"), detailed = vp_flip("detailed"), stats = vp_flip("stats");
  g_stats = stats && vp_flip("stats available");
  std::vector<std::vector<std::string>> groups;
  if (cat < 3)
    groups.push_back({longName ? "--category" : "-c", CATS[cat]});
  static const char* const ENT[] = {"0", "-1", "1,0", "0:1", "2"};
  if (ent < 5)
    groups.push_back({longName ? "--entries" : "-e", ENT[ent]});
  if (detailed)
    groups.push_back({longName ? "--detailed" : "-d"});
  if (stats)
    groups.push_back({longName ? "--size-stats" : "-s"});
  // the file anywhere between them
  const int pos = vp_choose((int)groups.size() + 1, "position of the file");
  groups.insert(groups.begin() + pos, {"f.root"});
  if (vp_flip("reversed"))
    std::reverse(groups.begin(), groups.end());
  std::vector<std::string> args;
  for (auto& g : groups)
    args.insert(args.end(), g.begin(), g.end());
  const int rc = run(args);
  const int c = cat < 3 ? cat : 0;
  const size_t have = c < 2 ? g_entries[c] : 0;
  std::vector<size_t> want;
  if (ent == 1)
    for (size_t e = 0; e < have; ++e)
      want.push_back(e);
  else if (ent == 2)
    want = {1, 0};
  else if (ent == 3)
    want = {0, 1};
  else if (ent == 4)
    want = {2};
  else
    want = {0};
  // the first entry that is not there ends it
  bool ok = true;
  std::vector<size_t> shown;
  for (auto e : want) {
    ok = e < have;
    if (!ok)
      break;
    shown.push_back(e);
  }
  VP_ASSERT(g_opened == "f.root", "the file is the one that is named");
  VP_ASSERT((rc == 0) == ok, "the tool fails iff an entry is not there");
  const auto& o = fmt::out();
  VP_ASSERT(reads().size() == shown.size() + !ok, "exactly the entries that are asked for are read");
  for (size_t i = 0; i < shown.size(); ++i)
    VP_ASSERT(reads()[i].cat == c && reads()[i].index == shown[i], "in the order and of the category asked for");
  VP_ASSERT(o.find("f.root") != std::string::npos, "the file is shown");
  VP_ASSERT(o.find(" - edm (v)\n") != std::string::npos && o.find(" - edm2\n") != std::string::npos, "the data models are shown, with their version if they have one");
  VP_ASSERT(o.find("events  3  \nRuns  2  \n") != std::string::npos, "the categories are shown with the number of their entries, sorted by name");
  size_t at = 0;
  for (auto e : shown) {
    const std::string head = " " + std::string(CATS[c]) + ": " + std::to_string(e) + " \n";
    at = o.find(head, at);
    VP_ASSERT(at != std::string::npos, "every entry is shown, in order");
  }
  VP_ASSERT(countOf(o, "Collections:") == shown.size() && countOf(o, "\nParameters:") == shown.size(), "collections and parameters are shown once per entry");
  const auto at0 = o.find("Collections:");
  if (!shown.empty()) {
    const std::string first = o.substr(at0, o.find(" " + std::string(CATS[c]) + ": ", at0) - at0);
    if (detailed) {
      const auto p1 = first.find("Hits\n"), p2 = first.find("ints\n"), p3 = first.find("some (s)\n");
      VP_ASSERT(p1 < p2 && p2 < p3 && p3 < std::string::npos, "all collections are shown, sorted by name, with a mark for subset collections");
    } else {
      auto line = [&](const std::string& name, const std::string& type, int size, int id, const char* st) {
        return name + "  " + type + "  " + std::to_string(size) + "  " + std::to_string(id) + "  " + (g_stats ? st : "") + "  \n";
      };
      (void)line;
      const auto p1 = first.find("Hits  Hit  2  "), p2 = first.find("ints  int32_t  11  "), p3 = first.find("some (s)  Hit  1  ");
      VP_ASSERT(p1 < p2 && p2 < p3 && p3 < std::string::npos, "all collections are shown sorted by name, with type, size and a mark for subset collections");
      VP_ASSERT((first.find("200 (4)") < p2) == g_stats && (first.find("300 (5)") != std::string::npos) == g_stats, "and their size in the file if it is asked for and known");
      VP_ASSERT(countOf(first, "b  int  3  \n") == 1 && countOf(first, "A  float  1  \n") == 1 && countOf(first, "d  double  2  \n") == 1 && countOf(first, "b  std::string  5  \ns  std::string  4  \n") == 1,
                "all parameters are shown, by type and name, with the number of their values");
    }
  }
  if (ok && shown.size() == 3 && detailed)
    vp_cover("all");
}

// ---- what ends the tool
extern "C" void hm_dump_usage() {
  g_entries[0] = 1;
  static const std::vector<std::string> CASES[] = {
      {}, {"a", "b"}, {"-c"}, {"a", "-c"}, {"--category"}, {"a", "--dump-edm"}, {"-d"}, {"-s"}, {"a", "-e", "x"}, {"-e", "2:1", "a"}, {"-e", "", "a"}, {"a", "-e"}, {"a", "-x"},
      {"-h"}, {"a", "--help"}, {"--version"}, {"-c", "b", "a", "-h"},
      {"a", "--dump-edm", "edm"}, {"--dump-edm", "edm2", "a"}, {"a", "--dump-edm", "none"}};
  const int k = vp_choose(std::size(CASES), "case");
  const int rc = run(CASES[k]);
  const bool fine = (k >= 13 && k <= 18);
  VP_ASSERT((rc == 0) == fine, "help, version and definitions of models are shown, incomplete command lines are failures");
  VP_ASSERT(reads().empty(), "without reading anything");
  VP_ASSERT(k >= 17 || g_opened.empty(), "files are only opened for complete command lines");
  VP_ASSERT(fine || !fmt::err().empty() || k == 8 || k == 10, "the failure is explained");
  if (k == 17)
    VP_ASSERT(fmt::out() == "{def of edm}\n", "the definition is shown");
  if (k == 18)
    VP_ASSERT(fmt::out() == "{def of edm2}\n" && g_opened == "a", "the definition is shown");
  vp_cover("done");
}
