// The front ends podio::Reader and podio::Writer, and how they choose a backend; the backends themselves record what they are asked for
#include "vp.h"
#include "podio/Frame.h"
#include "podio/UserDataCollection.h"
#include "podio/podioVersion.h"
#include "podio/utilities/ReaderUtils.h"
#include "podio/utilities/Glob.h"
#include <algorithm>
#include <cstdlib>
#include <glob.h>
#include <map>
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif
#undef PODIO_ENABLE_RNTUPLE
#define PODIO_ENABLE_RNTUPLE 1
#undef PODIO_ENABLE_SIO
#define PODIO_ENABLE_SIO 1
#define PODIO_ROOTREADER_H
#define PODIO_RNTUPLEREADER_H
#define PODIO_SIOREADER_H
#define PODIO_ROOTWRITER_H
#define PODIO_RNTUPLEWRITER_H
#define PODIO_SIOWRITER_H

struct Call {
  int kind = -1;
  std::string what, category;
  size_t index = 0;
  std::vector<std::string> colls;
  const podio::Frame* frame = nullptr;
};
static std::vector<Call>& calls() {
  static std::vector<Call> c;
  return c;
}
struct FakeData {
  int tag;
  podio::CollectionIDTable getIDTable() const { return {}; }
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string&) { return std::nullopt; }
  std::vector<std::string> getAvailableCollections() const { return {}; }
  std::unique_ptr<podio::GenericParameters> getParameters() {
    auto p = std::make_unique<podio::GenericParameters>();
    p->set("tag", tag);
    return p;
  }
};
static bool g_have = true; // whether the backend has the entry
static int g_tag = 0;
static size_t g_entries = 0;
static uint16_t g_version[3];
static bool g_stats = true;
static int g_opened = -1; // kind of reader
static std::vector<std::string> g_files;

template <int K>
struct FakeReader {
  std::unique_ptr<FakeData> readNextEntry(std::string_view name, const std::vector<std::string>& colls = {}) {
    calls().push_back({K, "next", std::string(name), 0, colls});
    return g_have ? std::make_unique<FakeData>(g_tag) : nullptr;
  }
  std::unique_ptr<FakeData> readEntry(std::string_view name, size_t index, const std::vector<std::string>& colls = {}) {
    calls().push_back({K, "entry", std::string(name), index, colls});
    return g_have ? std::make_unique<FakeData>(g_tag) : nullptr;
  }
  unsigned getEntries(std::string_view name) const {
    calls().push_back({K, "entries", std::string(name)});
    return g_entries;
  }
  podio::version::Version currentFileVersion() const { return {g_version[0], g_version[1], g_version[2]}; }
  std::optional<podio::version::Version> currentFileVersion(std::string_view name) const {
    if (name == "edm")
      return podio::version::Version{g_version[2], g_version[1], g_version[0]};
    return std::nullopt;
  }
  std::vector<std::string_view> getAvailableCategories() const { return {"one", "two"}; }
  const std::string_view getDatamodelDefinition(std::string_view name) const { return name == "edm" ? "{def}" : "{}"; }
  std::vector<std::string> getAvailableDatamodels() const { return {"edm"}; }
  void openFile(const std::string& f) {
    g_opened = K;
    g_files = {f};
  }
  void openFiles(const std::vector<std::string>& f) {
    g_opened = K;
    g_files = f;
  }
  std::optional<std::map<std::string, SizeStats>> getSizeStats(std::string_view category) const {
    if (!g_stats)
      return std::nullopt;
    return std::map<std::string, SizeStats>{{std::string(category), SizeStats{7, 2.f}}};
  }
};
static int g_writer = -1, g_alive = 0, g_finished = 0;
static std::string g_wfile;
template <int K>
struct FakeWriter {
  FakeWriter(const std::string& f) {
    g_writer = K;
    g_wfile = f;
    g_alive++;
  }
  FakeWriter(const FakeWriter&) = delete;
  ~FakeWriter() { g_alive--; }
  void writeFrame(const podio::Frame& f, std::string_view category) { writeFrame(f, category, {"wrong overload"}); }
  void writeFrame(const podio::Frame& f, std::string_view category, const std::vector<std::string>& c) { calls().push_back({K, "write", std::string(category), 0, c, &f}); }
  void finish() { g_finished++; }
};
namespace podio {
using ROOTReader = FakeReader<0>;
using RNTupleReader = FakeReader<1>;
using SIOReader = FakeReader<2>;
using ROOTWriter = FakeWriter<0>;
using RNTupleWriter = FakeWriter<1>;
using SIOWriter = FakeWriter<2>;
} // namespace podio
#include "Reader.cc"
#include "Writer.cc"

static std::vector<std::string> someNames(const char* what) {
  std::vector<std::string> r;
  const int k = vp_choose(4, what);
  if (k & 1)
    r.push_back("first");
  if (k & 2)
    r.push_back("second");
  return r;
}

// ---- the reader passes on exactly what it is asked for
template <int K>
static void frontReader() {
  podio::Reader r0(std::make_unique<FakeReader<K>>());
  podio::Reader r(std::move(r0));
  g_tag = vp_sym<int>("tag");
  g_have = vp_flip("entry is there");
  g_entries = vp_sym<uint16_t>("entries");
  for (auto& v : g_version)
    v = vp_sym<uint16_t>("version");
  const auto colls = someNames("collections");
  const size_t index = g_have ? vp_sym<uint32_t>("index") : 1000 * vp_choose(3, "index"); // the message has the number in it
  const std::string cat = vp_flip("category") ? "events" : "other";
  const int how = vp_choose(4, "how");
  const bool def = colls.empty() && vp_flip("default argument");
  std::optional<podio::Frame> f;
  const bool thrown = vp_throws<std::runtime_error>([&] {
    switch (how) {
    case 0: f.emplace(def ? r.readNextFrame(cat) : r.readNextFrame(cat, colls)); break;
    case 1: f.emplace(def ? r.readNextEvent() : r.readNextEvent(colls)); break;
    case 2: f.emplace(def ? r.readFrame(cat, index) : r.readFrame(cat, index, colls)); break;
    default: f.emplace(def ? r.readEvent(index) : r.readEvent(index, colls));
    }
  });
  VP_ASSERT(thrown == !g_have, "an entry that is not there is an error, any other is returned");
  if (f)
    VP_ASSERT(f->getParameter<int>("tag") == g_tag, "the frame is made of what the backend has read");
  VP_ASSERT(calls().size() == 1, "one request is one request to the backend");
  auto& c = calls()[0];
  VP_ASSERT(c.kind == K && c.what == (how < 2 ? "next" : "entry") && c.category == (how % 2 ? "events" : cat) && c.colls == colls && (how < 2 || c.index == index), "the backend is asked for the very same");
  calls().clear();
  VP_ASSERT(r.getEntries(cat) == g_entries && calls().size() == 1 && calls()[0].category == cat, "the number of entries is that of the category");
  VP_ASSERT(r.getEvents() == g_entries && calls().size() == 2 && calls()[1].category == "events", "events are the entries of the category events");
  VP_ASSERT((r.currentFileVersion() == podio::version::Version{g_version[0], g_version[1], g_version[2]}), "the version of the file");
  VP_ASSERT((r.currentFileVersion("edm") == podio::version::Version{g_version[2], g_version[1], g_version[0]}) && !r.currentFileVersion("other"), "the version of a datamodel");
  VP_ASSERT((r.getAvailableCategories() == std::vector<std::string_view>{"one", "two"}) && r.getAvailableDatamodels() == std::vector<std::string>{"edm"}, "categories and datamodels");
  VP_ASSERT(r.getDatamodelDefinition("edm") == "{def}" && r.getDatamodelDefinition("other") == "{}", "definitions of datamodels");
  g_stats = vp_flip("statistics");
  auto s = r.getSizeStats(cat);
  VP_ASSERT(s.has_value() == (K == 0 && g_stats), "only the backend that has size statistics gives some");
  if (s)
    VP_ASSERT(s->size() == 1 && s->count(cat) && s->at(cat).numBytes == 7, "size statistics of the category");
  vp_cover(thrown ? "missing" : "read");
}
extern "C" void hm_front_reader() {
  switch (vp_choose(3, "backend")) {
  case 0: return frontReader<0>();
  case 1: return frontReader<1>();
  default: return frontReader<2>();
  }
}

struct Filled {
  podio::Frame f;
  std::vector<std::string> names;
};

extern "C" void hm_front_writer() {
  podio::Frame f, other;
  const int n = vp_choose(3, "collections in the frame");
  std::vector<std::string> names;
  for (int i = 0; i < n; ++i) {
    podio::UserDataCollection<int> c;
    names.push_back(i ? "second" : "first");
    f.put(std::move(c), names.back());
  }
  const auto colls = someNames("collections");
  const std::string cat = vp_flip("category") ? "events" : "other";
  {
    podio::Writer w0(std::make_unique<FakeWriter<1>>("file"));
    podio::Writer w(std::move(w0));
    VP_ASSERT(g_alive == 1, "there is one writer");
    const int how = vp_choose(4, "how");
    switch (how) {
    case 0: w.writeFrame(f, cat); break;
    case 1: w.writeFrame(f, cat, colls); break;
    case 2: w.writeEvent(f); break;
    default: w.writeEvent(f, colls);
    }
    VP_ASSERT(calls().size() == 1, "one request is one request to the backend");
    auto& c = calls()[0];
    auto got = c.colls, want = how % 2 ? colls : names;
    if (how % 2 == 0)
      std::sort(got.begin(), got.end());
    VP_ASSERT(c.frame == &f && c.category == (how < 2 ? cat : "events") && got == want, "the backend is asked for the very same, all collections by default");
    VP_ASSERT(g_finished == 0, "a file is only finished on request");
    if (vp_flip("finish")) {
      w.finish();
      VP_ASSERT(g_finished == 1, "finish is passed on");
    }
  }
  VP_ASSERT(g_alive == 0, "the writer goes away with its front end");
  vp_cover("done");
}

// ---- the choice of the backend
static TFile* g_tfile = nullptr;
static std::string g_tname;
TFile* TFile::Open(const char* n, const char*) {
  g_tname = n;
  return g_tfile;
}
static std::vector<std::string> g_matches;
static int g_glob = 0, g_globs = 0, g_frees = 0;
static std::string g_pattern;
static std::vector<char*> g_paths;
extern "C" int glob(const char* p, int, int (*)(const char*, int), glob_t* g) {
  g_globs++;
  g_pattern = p;
  g->gl_pathc = 0;
  g->gl_pathv = nullptr;
  if (g_glob)
    return g_glob;
  g_paths.clear();
  for (auto& m : g_matches)
    g_paths.push_back(m.data());
  g_paths.push_back(nullptr);
  g->gl_pathc = g_matches.size();
  g->gl_pathv = g_paths.data();
  return 0;
}
extern "C" void globfree(glob_t*) { g_frees++; }

extern "C" void hm_make_reader() {
  static const char* NAME[] = {"a.root", "dir.x/b.root", "c.sio", "d.txt", "e.root.sio"};
  static const int KIND[] = {0, 0, 2, -1, 2}; // root, sio or neither
  static const char* CLS[] = {"TTree", "ROOT::RNTuple", "ROOT::Experimental::RNTuple", "TDirectory"};
  std::vector<std::string> files;
  const int nf = vp_choose(3, "files");
  int first = -1;
  bool mixed = false;
  std::string ext;
  for (int i = 0; i < nf; ++i) {
    const int k = vp_choose(5, "name");
    files.push_back(NAME[k]);
    const std::string e = k == 3 ? "txt" : KIND[k] == 0 ? "root" : "sio";
    if (i == 0) {
      first = KIND[k];
      ext = e;
    } else
      mixed |= e != ext;
  }
  bool ntuple = false;
  const bool exists = vp_flip("exists");
  if (exists) {
    g_tfile = new TFile;
    const int nk = vp_choose(3, "keys");
    for (int i = 0; i < nk; ++i) {
      const int k = vp_choose(5, "key");
      if (k == 4)
        g_tfile->keys.push_back(std::make_unique<TObject>());
      else
        g_tfile->keys.push_back(std::make_unique<TKey>(CLS[k]));
      ntuple |= k == 1 || k == 2;
    }
  }
  const bool viaGlob = vp_flip("pattern");
  g_matches = files;
  g_glob = viaGlob ? (nf == 0 ? GLOB_NOMATCH : vp_flip("glob fails") ? GLOB_ABORTED : 0) : 0;
  std::optional<podio::Reader> r;
  const bool thrown = vp_throws<std::runtime_error>([&] { r.emplace(viaGlob ? podio::makeReader(std::string("pattern")) : podio::makeReader(files)); });
  bool want = nf > 0 && !mixed && first >= 0 && g_glob == 0;
  if (want && first == 0)
    want = exists;
  if (want && first == 2)
    want = nf == 1;
  VP_ASSERT(thrown == !want, "a reader is made iff the files can be read by one backend");
  if (viaGlob)
    VP_ASSERT(g_pattern == "pattern" && g_globs == 1 && g_frees <= 1 && (g_glob || g_frees == 1), "a name is expanded once");
  if (want) {
    VP_ASSERT(g_opened == (first == 2 ? 2 : ntuple ? 1 : 0), "the backend is the one of the file");
    VP_ASSERT(g_files == files, "all files are opened, in order");
    if (first == 0)
      VP_ASSERT(g_tname == files[0], "the first file decides");
    g_tag = 5;
    VP_ASSERT(r->readNextEvent().getParameter<int>("tag") == 5 && calls().size() == 1 && calls()[0].kind == g_opened, "the reader reads with this backend");
    vp_cover("made");
  } else
    vp_cover("refused");
}

extern "C" void hm_make_writer() {
  static const char* NAME[] = {"a.root", "b.sio", "c.txt", "root", "sio", "d.sio.root", "e.root.sio", ""};
  static const int KIND[] = {0, 2, -1, -1, -1, 0, 2, -1};
  static const char* TYPE[] = {"default", "root", "ROOT", "rntuple", "RNTuple", "sio", "other", ""};
  const int n = vp_choose(8, "name"), t = vp_choose(9, "type"), env = vp_choose(3, "environment");
  if (env)
    setenv("PODIO_DEFAULT_WRITE_RNTUPLE", env == 1 ? "" : "1", 1);
  const int kind = KIND[n];
  int want = -1; // -1: refused
  bool open = false;
  if (kind == 2)
    want = 2; // the type is ignored
  else if (t >= 1 && t <= 4) {
    want = t <= 2 ? 0 : 1;
    open = kind != 0; // an explicit type for a file of another extension: not specified
  } else if (kind == 0 && (t == 0 || t == 8))
    want = env == 2 ? 1 : 0;
  std::optional<podio::Writer> w;
  const bool thrown = vp_throws<std::runtime_error>([&] { w.emplace(t == 8 ? podio::makeWriter(NAME[n]) : podio::makeWriter(NAME[n], TYPE[t])); });
  if (!open) {
    VP_ASSERT(thrown == (want < 0), "a writer is made iff the extension belongs to a backend");
    if (want >= 0)
      VP_ASSERT(g_writer == want && g_wfile == NAME[n], "the backend is the one of the extension and, for .root files, of the type or the environment");
  } else
    VP_ASSERT(thrown || (g_writer == want && g_wfile == NAME[n]), "an explicit type is never replaced by another backend");
  vp_cover(thrown ? "refused" : "made");
}
