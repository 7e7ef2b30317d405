// The ROOT backends (TTree and RNTuple): podio's writers, readers and frame data, against a model of ROOT (stub/rootmodel.h)
#include "podio/ROOTReader.h"
#include "podio/ROOTLegacyReader.h"
#include "podio/ROOTWriter.h"
#include "podio/RNTupleReader.h"
#include "podio/RNTupleWriter.h"
#include "rootUtils.h"
#include "h_backend.h"

namespace rootmodel { // as their streamers do
template <>
void copyTo(podio::GenericParameters& to, const podio::GenericParameters& from) {
  to = podio::GenericParameters(from);
}
template <>
void copyTo(podio::CollectionIDTable& to, const podio::CollectionIDTable& from) {
  to = podio::CollectionIDTable(from.ids(), from.names());
}
} // namespace rootmodel

struct Tree {
  using Reader = podio::ROOTReader;
  using Writer = podio::ROOTWriter;
  static std::string ext() { return ".root"; }
  static constexpr bool differentEntries = false; // all entries of a category have the same collections
  static constexpr bool failureMoves = true;
  static constexpr bool refusesToWrite = false;
};
struct Ntuple {
  using Reader = podio::RNTupleReader;
  using Writer = podio::RNTupleWriter;
  static std::string ext() { return ".root"; }
  static constexpr bool differentEntries = false;
  static constexpr bool failureMoves = false;
  static constexpr bool refusesToWrite = false;
};

template <typename T>
static void coll() {
  rootmodel::add<std::vector<T>>("vector<" + std::string(podio::UserDataCollection<T>::dataTypeName) + ">");
}
// the dictionaries
static void classes() {
  using namespace rootmodel;
  add<std::vector<HitData>>("vector<HitData>");
  add<std::vector<PartData>>("vector<vns::PartData>");
  add<std::vector<MixedData>>("vector<MixedData>");
  add<std::vector<HolderData>>("vector<HolderData>");
  add<std::vector<MultiData>>("vector<MultiData>");
  add<std::vector<VecsData>>("vector<VecsData>");
  add<std::vector<podio::LinkData>>("vector<podio::LinkData>");
  add<std::vector<podio::ObjectID>>("vector<podio::ObjectID>");
  add<std::vector<int>>("vector<int>");
  add<std::vector<Vec2>>("vector<Vec2>");
  add<std::vector<std::string>>("vector<string>");
  add<std::vector<std::vector<int>>>("vector<vector<int>>");
  add<std::vector<std::vector<float>>>("vector<vector<float>>");
  add<std::vector<std::vector<double>>>("vector<vector<double>>");
  add<std::vector<std::vector<std::string>>>("vector<vector<string>>");
  coll<float>();
  coll<double>();
  coll<int8_t>();
  coll<int16_t>();
  coll<int32_t>();
  coll<int64_t>();
  coll<uint8_t>();
  coll<uint16_t>();
  coll<uint32_t>();
  coll<uint64_t>();
}

// the contents of a category are fixed by its first frame; other frames are refused and leave no trace
template <typename B>
static void b_consistent() {
  static const std::string N[] = {"a", "B", "b"};
  int tag[3][3];
  std::vector<int> stored; // the frames that were written
  int first = -1, masks[3];
  const int n = 2 + (VP_DEPTH > 0);
  {
    typename B::Writer w("c" + B::ext());
    for (int s = 0; s < n; ++s) {
      const int have = vp_choose(2, "frame has all"); // or only a and B
      const int mask = masks[s] = vp_choose(8, "asked for");
      const bool all = vp_flip("all");                        // without a list everything that is there is written
      podio::Frame f;
      for (int i = 0; i < 3; ++i) {
        tag[s][i] = vp_sym<int>("tag");
        if (i == 2 && !have)
          continue;
        HitCollection h;
        h.create().setT(tag[s][i]);
        f.put(std::move(h), N[i]);
      }
      std::vector<std::string> names;
      for (int i = 2; i >= 0; --i)
        if (mask >> i & 1)
          names.push_back(N[i]);
      const int eff = masks[s] = all ? (have ? 7 : 3) : mask;
      const bool available = have || !(eff & 4);
      const bool ok = available && (first < 0 || eff == first);
      const auto [missing, extra] = w.checkConsistency(names, "events");
      if (first >= 0)
        VP_ASSERT((missing.empty() && extra.empty()) == (mask == first), "consistency can be asked for");
      else if (s == 0)
        VP_ASSERT(missing.empty() && (int)extra.size() == (mask & 1) + (mask >> 1 & 1) + (mask >> 2 & 1), "nothing is there before the first frame");
      const bool thrown = vp_throws<std::runtime_error>([&] {
        if (all)
          w.writeFrame(f, "events");
        else
          w.writeFrame(f, "events", names);
      });
      VP_ASSERT(thrown == !ok, "a frame is refused iff its collections are not those of the category");
      if (!thrown) {
        first = eff;
        stored.push_back(s);
      } else
        vp_cover("refused");
    }
  }
  auto r = reader<B>("c" + B::ext());
  VP_ASSERT(r->getEntries("events") == stored.size(), "exactly the frames that were accepted are there");
  for (size_t k = 0; k < stored.size(); ++k) {
    podio::Frame in = frameOf(r->readNextEntry("events"));
    for (int i = 0; i < 3; ++i) {
      auto* c = in.get(N[i]);
      VP_ASSERT((c != nullptr) == bool(first >> i & 1), "exactly the collections of the category are there");
      if (c)
        VP_ASSERT(in.get<HitCollection>(N[i])[0].getT() == tag[stored[k]][i], "every collection has its own contents");
    }
  }
  vp_cover("done");
}

// several files read as one
template <typename B>
static void b_chain() {
  static const std::string CAT[] = {"events", "a category with a rather long name"};
  const int nf = 2 + (VP_DEPTH > 0);
  std::vector<int> tags[2];
  std::vector<std::string> files;
  for (int f = 0; f < nf; ++f) {
    files.push_back(std::string(1, 'a' + f) + B::ext());
    typename B::Writer w(files.back());
    for (int c = 0; c < 2; ++c) {
      const int n = c ? 1 : 1 + vp_choose(2, "entries");
      for (int k = 0; k < n; ++k) {
        podio::Frame fr;
        HitCollection h, sub;
        sub.setSubsetCollection();
        PartCollection p;
        const int t = vp_sym<int>("tag");
        tags[c].push_back(t);
        h.create().setT(t);
        for (int j = 0; j < k; ++j)
          h.create();
        sub.push_back(h[0]);
        auto x = p.create();
        x.setPdg(t);
        x.addToHits(h[0]);
        fr.put(std::move(h), "hits");
        fr.put(std::move(p), "parts");
        fr.put(std::move(sub), "sub");
        fr.putParameter("tag", t);
        w.writeFrame(fr, CAT[c]);
      }
    }
    w.finish();
  }
  auto r = std::make_unique<typename B::Reader>();
  r->openFiles(files);
  for (int c = 0; c < 2; ++c)
    VP_ASSERT(r->getEntries(std::string(CAT[c])) == tags[c].size(), "all entries of all files");
  VP_ASSERT(r->getAvailableCategories().size() == 2 && r->getAvailableDatamodels().size() == 1 && r->currentFileVersion() == podio::version::build_version, "what the files have in common");
  unsigned next[2] = {0, 0};
  for (int s = 0; s < 3; ++s) {
    const int c = s == 1 ? vp_choose(2, "category") : 0;
    const int n = tags[c].size();
    const int k = vp_choose(n + 1, "entry");
    const int want = k == n ? next[c] : k;
    auto d = k == n ? r->readNextEntry(std::string(CAT[c])) : r->readEntry(std::string(CAT[c]), k);
    VP_ASSERT((d != nullptr) == (want < n), "an entry can be read iff it was written");
    if (!d)
      continue;
    next[c] = want + 1;
    podio::Frame f(std::move(d));
    VP_ASSERT(f.getParameter<int>("tag") == tags[c][want], "it is the right entry");
    auto& p = f.get<PartCollection>("parts");
    VP_ASSERT(p.size() == 1 && p[0].getPdg() == tags[c][want] && p[0].hits_size() == 1 && p[0].getHits(0).getT() == tags[c][want], "the entry has its contents and relations");
    auto& su = f.get<HitCollection>("sub");
    VP_ASSERT(su.isSubsetCollection() && su.size() == 1 && su[0] == f.get<HitCollection>("hits")[0], "the entry has its subset collections");
    if (want >= (int)tags[0].size() / 2)
      vp_cover("second file");
  }
  vp_cover("done");
}

// the consistency of names is that of the names themselves
extern "C" void hm_root_names() {
  using namespace podio::root_utils;
  auto name = [](const char* what) {
    std::string s(1, vp_sym<char>(what));
    if (vp_flip("longer"))
      s += vp_sym<char>(what);
    return s;
  };
  std::vector<CollectionWriteInfo> have;
  std::vector<std::string> haveNames, cand;
  const int nh = vp_choose(3, "have"), nc = vp_choose(3, "asked");
  for (int i = 0; i < nh; ++i) {
    haveNames.push_back(name("name"));
    have.emplace_back(i, "T", false, 1u, haveNames.back(), "");
  }
  for (int i = 0; i < nc; ++i)
    cand.push_back(name("candidate"));
  vp_assume(nh < 2 || haveNames[0] != haveNames[1]);
  vp_assume(nc < 2 || cand[0] != cand[1]);
  auto in = [](const std::string& n, const std::vector<std::string>& v) { return std::find(v.begin(), v.end(), n) != v.end(); };
  bool same = nh == nc;
  int onlyHave = 0, onlyCand = 0;
  for (auto& n : haveNames)
    onlyHave += !in(n, cand);
  for (auto& n : cand)
    onlyCand += !in(n, haveNames);
  same = !onlyHave && !onlyCand;
  VP_ASSERT(checkConsistentColls(have, cand) == same, "two sets of names are consistent iff they are the same");
  const auto [h, c] = getInconsistentColls(haveNames, cand);
  VP_ASSERT((int)h.size() == onlyHave && (int)c.size() == onlyCand, "the differences are complete");
  for (auto& n : h)
    VP_ASSERT(in(n, haveNames) && !in(n, cand), "a missing name is one that is only in the file");
  for (auto& n : c)
    VP_ASSERT(in(n, cand) && !in(n, haveNames), "a superfluous name is one that is only asked for");
  vp_cover(same ? "same" : "different");
}

// files as they were written by older versions of podio: index based names, no names in the collection info, no schema version, parameters as one object
// ---- files of older versions: relations by their index, parameters as one object, collections described otherwise
static int oTag[4], oCount[4];
static bool oRel[4];
struct OldEvents {
  TTree* tree;
  std::vector<HitData>* hits = new std::vector<HitData>;
  std::vector<PartData>* parts = new std::vector<PartData>;
  std::vector<VecsData>* vecs = new std::vector<VecsData>;
  std::vector<int>* counts = new std::vector<int>;
  std::vector<double> weights;
  std::vector<Vec2> comps;
  std::vector<podio::ObjectID> sub, refs[5];
  std::vector<std::string_view> rels;
  int iHits = -1;
  OldEvents(TFile& file, bool byIndex, bool subset) {
    tree = new TTree("events", "");
    tree->SetDirectory(&file);
    auto branch = [&](const std::string& index, const std::string& name) { return byIndex ? index : name; };
    tree->Branch("hits", "vector<HitData>", &hits);
    tree->Branch("parts", "vector<vns::PartData>", &parts);
    rels = podio::DatamodelRegistry::instance().getRelationNames("vns::PartCollection").relations;
    VP_ASSERT(rels.size() == 5, "harness: the relations of Part");
    for (int i = 0; i < 5; ++i) {
      if (rels[i] == "hits")
        iHits = i;
      tree->Branch(branch("parts#" + std::to_string(i), "_parts_" + std::string(rels[i])).c_str(), &refs[i]);
    }
    tree->Branch("vecs", "vector<VecsData>", &vecs);
    tree->Branch(branch("vecs_0", "_vecs_counts").c_str(), "vector<int>", &counts);
    tree->Branch(branch("vecs_1", "_vecs_weights").c_str(), &weights);
    tree->Branch(branch("vecs_2", "_vecs_comps").c_str(), &comps);
    if (subset)
      tree->Branch(branch("sub#0", "sub_objIdx").c_str(), &sub);
  }
  ~OldEvents() {
    delete hits;
    delete parts;
    delete vecs;
    delete counts;
  }
  void fill(int k, int nHits) {
    oTag[k] = vp_sym<int>("tag");
    oRel[k] = vp_flip("relation");
    oCount[k] = k ? !oRel[k] : vp_choose(2, "count");
    hits->assign(nHits, HitData{});
    hits->back().t = oTag[k];
    parts->assign(1, PartData{});
    (*parts)[0].pdg = oTag[k];
    refs[iHits].clear();
    (*parts)[0].hits_begin = 0;
    (*parts)[0].hits_end = oRel[k];
    if (oRel[k])
      refs[iHits].push_back({nHits - 1, 1});
    for (int i = 0; i < 5; ++i) // single relations have one entry for every object
      if (rels[i] == "mother" || rels[i] == "hit")
        refs[i].assign(1, podio::ObjectID{});
    vecs->assign(1, VecsData{});
    (*vecs)[0].counts_end = oCount[k];
    counts->assign(oCount[k], oTag[k]);
    sub.assign(1, podio::ObjectID{nHits - 1, 1});
    tree->Fill();
  }
};
static void checkOld(const podio::Frame& in, int k, int nHits, bool subset) {
  if (subset)
    VP_ASSERT(sameNames(in.getAvailableCollections(), {"hits", "parts", "vecs", "sub"}), "all collections are there");
  else
    VP_ASSERT(sameNames(in.getAvailableCollections(), {"hits", "parts", "vecs"}), "all collections are there");
  auto& h = in.get<HitCollection>("hits");
  VP_ASSERT((int)h.size() == nHits && h[nHits - 1].getT() == oTag[k] && h.getID() == 1, "objects and IDs come back");
  auto& p = in.get<PartCollection>("parts");
  VP_ASSERT(p.size() == 1 && p[0].getPdg() == oTag[k] && (int)p[0].hits_size() == oRel[k] && p[0].daughters_size() == 0, "objects and relations come back");
  if (oRel[k])
    VP_ASSERT(p[0].getHits(0) == h[nHits - 1], "relations come back");
  auto& v = in.get<VecsCollection>("vecs");
  VP_ASSERT(v.size() == 1 && (int)v[0].counts_size() == oCount[k] && (!oCount[k] || v[0].getCounts(0) == oTag[k]), "vector members come back");
  if (subset) {
    auto& s = in.get<HitCollection>("sub");
    VP_ASSERT(s.isSubsetCollection() && s.size() == 1 && s[0] == h[nHits - 1], "subset collections come back");
  }
  VP_ASSERT(in.getParameter<int>("tag") == oTag[k] && in.getParameter<std::string>("text") == "some text" && !in.getParameter<int>("text"), "parameters come back");
}
static const char* OLD[] = {"HitCollection", "vns::PartCollection", "VecsCollection", "HitCollection"};
static void oldClasses() {
  classes();
  rootmodel::add<HitCollection>("HitCollection");
  rootmodel::add<VecsCollection>("VecsCollection");
  rootmodel::add<PartCollection>("vns::PartCollection");
}
// frames as older versions wrote them
extern "C" void hm_tree_old() {
  oldClasses();
  using podio::version::Version;
  static const Version V[] = {{0, 16, 3}, {0, 16, 6}, {0, 17, 0}, {1, 0, 0}, {1, 2, 0}};
  Version version = V[vp_choose(5, "version")];
  const bool byIndex = version < Version{0, 16, 99}, noSchema = version < Version{0, 16, 4}, oneObject = version < Version{0, 99, 99};
  const int n = 1 + vp_choose(2, "entries");
  {
    TFile file("old.root", "recreate");
    OldEvents ev(file, byIndex, true);
    podio::GenericParameters params;
    std::vector<std::string> keys[4];
    std::vector<std::vector<int>> iv;
    std::vector<std::vector<float>> fv;
    std::vector<std::vector<double>> dv;
    std::vector<std::vector<std::string>> sv;
    if (oneObject)
      ev.tree->Branch("PARAMETERS", &params);
    else {
      ev.tree->Branch("GPIntKeys", &keys[0]);
      ev.tree->Branch("GPIntValues", &iv);
      ev.tree->Branch("GPFloatKeys", &keys[1]);
      ev.tree->Branch("GPFloatValues", &fv);
      ev.tree->Branch("GPDoubleKeys", &keys[2]);
      ev.tree->Branch("GPDoubleValues", &dv);
      ev.tree->Branch("GPStringKeys", &keys[3]);
      ev.tree->Branch("GPStringValues", &sv);
    }
    for (int k = 0; k < n; ++k) {
      const int tag = vp_sym<int>("parameter");
      params.set("tag", tag);
      params.set("text", std::string("some text"));
      keys[0] = {"tag"};
      iv = {{tag}};
      keys[3] = {"text"};
      sv = {{"some text"}};
      ev.fill(k, k + 1);
      VP_ASSUME(tag == oTag[k]);
    }
    auto meta = TTree("podio_metadata", "");
    meta.SetDirectory(&file);
    podio::CollectionIDTable table({1, 2, 3, 4}, {"hits", "parts", "vecs", "sub"});
    std::vector<podio::root_utils::CollectionInfoWithoutSchemaT> really;
    std::vector<podio::root_utils::CollectionWriteInfoT> info;
    for (int i = 0; i < 4; ++i) {
      really.emplace_back(i + 1, OLD[i], i == 3);
      info.emplace_back(i + 1, OLD[i], i == 3, 1u);
    }
    if (noSchema)
      meta.Branch("events___CollectionTypeInfo", &really);
    else
      meta.Branch("events___CollectionTypeInfo", &info);
    meta.Branch("events___idTable", &table);
    meta.Branch("PodioBuildVersion", &version);
    meta.Fill();
    file.Write();
    file.Close();
  }
  auto r = reader<Tree>("old.root");
  VP_ASSERT(r->currentFileVersion() == version && r->getEntries("events") == (unsigned)n && r->getAvailableCategories().size() == 1, "an old file knows its version and entries");
  const int k = vp_choose(n, "entry");
  checkOld(frameOf(r->readEntry("events", k)), k, k + 1, true);
  vp_cover(byIndex ? "by index" : "by name");
}
// events as they were written before there were frames
extern "C" void hm_tree_legacy() {
  oldClasses();
  using podio::version::Version;
  const int kind = vp_choose(3, "kind"); // no description of the collections, without the schema version, with it
  Version version = kind == 2 ? Version{0, 16, 5} : Version{0, 14, 1};
  const int nf = 1 + vp_choose(2, "files");
  int len[2] = {1, 0}, total = 0;
  std::vector<std::string> files;
  for (int f = 0; f < nf; ++f) {
    len[f] = 1 + vp_choose(2, "entries");
    files.push_back(f ? "b.root" : "a.root");
    TFile file(files.back().c_str(), "recreate");
    OldEvents ev(file, true, kind > 0);
    auto* md = new TTree("evt_metadata", "");
    md->SetDirectory(&file);
    podio::GenericParameters params;
    md->Branch("evtMD", &params);
    for (int k = 0; k < len[f]; ++k) {
      ev.fill(total + k, k + 1);
      params.set("tag", oTag[total + k]);
      params.set("text", std::string("some text"));
      md->Fill();
    }
    total += len[f];
    auto* meta = new TTree("metadata", "");
    meta->SetDirectory(&file);
    std::vector<uint32_t> ids{1, 2, 3};
    std::vector<std::string> names{"hits", "parts", "vecs"};
    std::vector<podio::root_utils::CollectionInfoWithoutSchemaT> really;
    std::vector<podio::root_utils::CollectionWriteInfoT> info;
    if (kind)
      ids.push_back(4), names.push_back("sub");
    podio::CollectionIDTable table(ids, names);
    for (int i = 0; i < 4; ++i) {
      really.emplace_back(i + 1, OLD[i], i == 3);
      info.emplace_back(i + 1, OLD[i], i == 3, 1u);
    }
    meta->Branch("CollectionIDs", &table);
    if (kind == 1)
      meta->Branch("CollectionTypeInfo", &really);
    if (kind == 2)
      meta->Branch("CollectionTypeInfo", &info);
    if (kind)
      meta->Branch("PodioVersion", &version);
    meta->Fill();
    file.Write();
    file.Close();
  }
  podio::ROOTLegacyReader r;
  if (nf == 1 && vp_flip("one"))
    r.openFile(files[0]);
  else
    r.openFiles(files);
  VP_ASSERT(r.getEntries("events") == (unsigned)total && r.getEntries("runs") == 0 && r.getAvailableCategories().size() == 1, "events are the only category");
  VP_ASSERT(!kind || r.currentFileVersion() == version, "the version is known");
  VP_ASSERT(!r.readNextEntry("runs") && !r.readEntry("runs", 0), "events are the only category");
  int next = 0;
  for (int s = 0; s < 2 + VP_DEPTH; ++s) {
    const int k = vp_choose(total + 2, "entry");
    const int at = k ? k - 1 : next;
    auto data = k ? r.readEntry("events", at) : r.readNextEntry("events");
    if (at >= total) {
      VP_ASSERT(!data, "there is nothing beyond the last entry");
      vp_cover("beyond the end");
      break;
    }
    checkOld(frameOf(std::move(data)), at, at < len[0] ? at + 1 : at + 1 - len[0], kind > 0);
    next = at + 1;
    if (at >= len[0])
      vp_cover("second file");
  }
  vp_cover(kind == 0 ? "oldest" : "done");
}

#define BOTH(f) \
  extern "C" void hm_tree_##f() { classes(); b_##f<Tree>(); } \
  extern "C" void hm_ntuple_##f() { classes(); b_##f<Ntuple>(); }
BOTH(data)
BOTH(rel)
BOTH(user)
BOTH(params)
BOTH(file)
BOTH(limit)
BOTH(open)
BOTH(consistent)
BOTH(chain)
