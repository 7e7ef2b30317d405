// The SIO backend: podio's writer, reader, frame data and the generated blocks, against a model of the SIO library
#include "podio/SIOLegacyReader.h"
#include "podio/SIOReader.h"
#include "podio/SIOWriter.h"
#include "sioUtils.h"
#include "h_backend.h"
struct Sio {
  using Reader = podio::SIOReader;
  using Writer = podio::SIOWriter;
  static std::string ext() { return ".sio"; }
  static constexpr bool differentEntries = true; // entries of one category need not have the same collections
  static constexpr bool failureMoves = true;     // after a request beyond the end, the next entry is the one after it
  static constexpr bool refusesToWrite = true;   // files that cannot be written are refused at once
};
extern "C" void hm_sio_data() { b_data<Sio>(); }
extern "C" void hm_sio_rel() { b_rel<Sio>(); }
extern "C" void hm_sio_user() { b_user<Sio>(); }
extern "C" void hm_sio_params() { b_params<Sio>(); }
extern "C" void hm_sio_file() { b_file<Sio>(); }
extern "C" void hm_sio_limit() { b_limit<Sio>(); }
extern "C" void hm_sio_open() { b_open<Sio>(); }

// ---- events as they were written before there were frames: one table of collections for the file, an event in every "event_record", other records in between
struct OldTable : sio::block {
  std::vector<std::string> names{"hits", "parts", "vecs", "sub"}, types{"Hit", "vns::Part", "Vecs", "Hit"};
  std::vector<uint32_t> ids{1, 2, 3, 4};
  std::vector<short> subset{0, 0, 0, 1};
  OldTable(bool withSubsets) : sio::block("CollectionIDs", sio::version::encode_version(0, withSubsets ? 3 : 1)) {
    if (!withSubsets)
      names.pop_back(), types.pop_back(), ids.pop_back(), subset.clear();
  }
  void read(sio::read_device&, sio::version_type) override {}
  void write(sio::write_device& d) override {
    d.data(names);
    d.data(ids);
    d.data(types);
    if (version() >= sio::version::encode_version(0, 2))
      d.data(subset);
  }
};
struct OldParameters : sio::block {
  const podio::GenericParameters& p;
  OldParameters(const podio::GenericParameters& q) : sio::block("EventMetaData", sio::version::encode_version(0, 1)), p(q) {}
  void read(sio::read_device&, sio::version_type) override {}
  void write(sio::write_device& d) override { // without doubles
    podio::writeMapLike(d, p.getMap<int>());
    podio::writeMapLike(d, p.getMap<float>());
    podio::writeMapLike(d, p.getMap<std::string>());
  }
};
extern "C" void hm_sio_legacy() {
  const bool toc = vp_flip("table of contents"), subsets = vp_flip("subset collections"), oldParameters = vp_flip("old parameters"), between = vp_flip("other records");
  const int n = vp_choose(3, "entries");
  podio::version::Version version{0, 15, 2};
  int tag[2], counts[2];
  bool rel[2];
  {
    sio::ofstream file;
    file.open("old.sio");
    podio::SIOFileTOCRecord contents;
    podio::sio_utils::writeRecord({std::make_shared<OldTable>(subsets), std::make_shared<podio::SIOVersionBlock>(version)}, "event_metadata", file);
    for (int k = 0; k < n; ++k) {
      podio::Frame f;
      HitCollection hits;
      for (int i = 0; i <= k; ++i)
        hits.create();
      tag[k] = vp_sym<int>("tag");
      rel[k] = vp_flip("relation");
      counts[k] = vp_choose(2, "count");
      auto hit = hits[k];
      hit.setT(tag[k]);
      PartCollection parts;
      auto p = parts.create();
      p.setPdg(tag[k]);
      if (rel[k])
        p.addToHits(hit);
      VecsCollection vecs;
      auto v = vecs.create();
      if (counts[k])
        v.addToCounts(tag[k]);
      HitCollection sub;
      sub.setSubsetCollection();
      sub.push_back(hit);
      hits.setID(1); // as the table says
      parts.setID(2);
      vecs.setID(3);
      sub.setID(4);
      hits.prepareForWrite();
      parts.prepareForWrite();
      vecs.prepareForWrite();
      sub.prepareForWrite();
      podio::GenericParameters params;
      params.set("tag", tag[k]);
      params.set("text", std::string("some text"));
      const std::string names[] = {"hits", "parts", "vecs", "sub"};
      std::vector<podio::sio_utils::StoreCollection> colls{{names[0], &hits}, {names[1], &parts}, {names[2], &vecs}};
      if (subsets)
        colls.emplace_back(names[3], &sub);
      auto blocks = podio::sio_utils::createBlocks(colls, params);
      if (oldParameters)
        blocks[0] = std::make_shared<OldParameters>(params);
      if (between)
        podio::sio_utils::writeRecord({std::make_shared<podio::SIOVersionBlock>(version)}, "run_record", file);
      contents.addRecord("event_record", podio::sio_utils::writeRecord(blocks, "event_record", file));
    }
    if (toc) {
      const uint64_t at = podio::sio_utils::writeRecord({std::make_shared<podio::SIOFileTOCRecordBlock>(&contents)}, podio::sio_helpers::SIOTocRecordName, file);
      const uint64_t last = (uint64_t(podio::sio_helpers::SIOTocMarker) << 32) | at;
      file.write(reinterpret_cast<const char*>(&last), sizeof(last));
    }
    file.close();
  }
  podio::SIOLegacyReader r;
  r.openFile("old.sio");
  VP_ASSERT(r.currentFileVersion() == version && r.getAvailableCategories().size() == 1 && r.getEntries("runs") == 0, "events are the only category");
  VP_ASSERT(r.getEntries("events") == (toc ? (unsigned)n : 0), "the table of contents knows the number of entries");
  VP_ASSERT(!r.readNextEntry("runs") && !r.readEntry("runs", 0), "events are the only category");
  int next = 0;
  for (int s = 0; s < 2 + VP_DEPTH; ++s) {
    const int k = toc ? vp_choose(n + 2, "entry") : 0; // without a table of contents, entries are only read in order
    const int at = k ? k - 1 : next;
    auto data = k ? r.readEntry("events", at) : r.readNextEntry("events");
    if (at >= n) {
      VP_ASSERT(!data, "there is nothing beyond the last entry");
      vp_cover("beyond the end");
      break;
    }
    podio::Frame in = frameOf(std::move(data));
    if (subsets)
      VP_ASSERT(sameNames(in.getAvailableCollections(), {"hits", "parts", "vecs", "sub"}), "all collections are there");
    else
      VP_ASSERT(sameNames(in.getAvailableCollections(), {"hits", "parts", "vecs"}), "all collections are there");
    auto& h = in.get<HitCollection>("hits");
    VP_ASSERT((int)h.size() == at + 1 && h[at].getT() == tag[at] && h.getID() == 1, "objects and IDs come back");
    auto& p = in.get<PartCollection>("parts");
    VP_ASSERT(p.size() == 1 && p[0].getPdg() == tag[at] && (int)p[0].hits_size() == rel[at] && p[0].daughters_size() == 0, "objects and relations come back");
    if (rel[at])
      VP_ASSERT(p[0].getHits(0) == h[at], "relations come back");
    auto& v = in.get<VecsCollection>("vecs");
    VP_ASSERT(v.size() == 1 && (int)v[0].counts_size() == counts[at] && (!counts[at] || v[0].getCounts(0) == tag[at]), "vector members come back");
    if (subsets) {
      auto& b = in.get<HitCollection>("sub");
      VP_ASSERT(b.isSubsetCollection() && b.size() == 1 && b[0] == h[at], "subset collections come back");
    }
    VP_ASSERT(in.getParameter<int>("tag") == tag[at] && in.getParameter<std::string>("text") == "some text" && !in.getParameter<int>("text"), "parameters come back");
    next = at + 1;
    vp_cover(toc ? "with contents" : "without contents");
  }
}
