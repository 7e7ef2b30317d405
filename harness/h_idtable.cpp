// Collection names and IDs
#include "io.h"
using namespace vio;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif
using Tab = podio::CollectionIDTable;
static std::string symName(int len, const char* n) {
  std::string s;
  for (int i = 0; i < len; ++i)
    s += vp_sym<char>(n);
  return s;
}
static void consistent(const Tab& t, const std::vector<std::string>& names, const std::vector<uint32_t>& ids) {
  VP_ASSERT(t.names().size() == names.size() && t.ids().size() == ids.size(), "one ID per name");
  VP_ASSERT(t.empty() == names.empty(), "empty without names");
  for (size_t i = 0; i < names.size(); ++i) {
    VP_ASSERT(t.names()[i] == names[i] && t.ids()[i] == ids[i], "names are kept in order with their IDs");
    VP_ASSERT(t.collectionID(names[i]) == std::optional<uint32_t>(ids[i]), "the ID of a name");
    auto n = t.name(ids[i]);
    VP_ASSERT(n.has_value() && *n == names[i], "the name of an ID");
    VP_ASSERT(t.present(names[i]) && t.present(ids[i]), "known names and IDs are present");
  }
}
// two short names, assumed not to share a hash value (see hm_add_pos)
extern "C" void hm_add() {
  const int len = vp_choose(VP_DEPTH ? 3 : 2, "length");
  std::string a = std::string("hit").substr(0, len), b = symName(len, "b");
  Tab t, u;
  const uint32_t ia = t.add(a), ib = t.add(b);
  if (a == b) {
    VP_ASSERT(ia == ib && t.names().size() == 1 && t.ids().size() == 1, "a name is added once");
    vp_cover("same");
  } else {
    VP_ASSUME(ia != ib);
    consistent(t, {a, b}, {ia, ib});
    VP_ASSERT(u.add(b) == ib && u.add(a) == ia, "the ID of a name is the same in every table and independent of what else is in it");
    consistent(u, {b, a}, {ib, ia});
    vp_cover("different");
  }
  VP_ASSERT(t.add(a) == ia, "adding again yields the same ID");
  const uint32_t other = vp_sym<uint32_t>("other");
  VP_ASSUME(other != ia && other != ib);
  VP_ASSERT(!t.present(other) && !t.name(other).has_value(), "an ID that was never handed out is unknown");
  VP_ASSERT(!t.present(a + "x") && !t.collectionID(a + "x"), "a name that was never added is unknown");
}
// names that differ in one character have different IDs, wherever the character is
extern "C" void hm_add_pos() {
  const int len = 1 + vp_choose(VP_DEPTH ? 12 : 9, "length");
  const int pos = vp_choose(len, "position");
  std::string a = std::string("CaloHits2345").substr(0, len), b = a;
  b[pos] = vp_sym<char>("b");
  VP_ASSUME(b[pos] >= '0' && b[pos] <= (VP_DEPTH ? '?' : '7')); // the solver needs long for more
  Tab t;
  const uint32_t ia = t.add(a), ib = t.add(b);
  if (a != b) {
    VP_ASSERT(ia != ib, "names that differ in one character have different IDs");
    consistent(t, {a, b}, {ia, ib});
    vp_cover("different");
  }
}
// longer names: every tail length and the block loop of the hash; IDs only depend on the name
extern "C" void hm_add_long() {
  const int len = 4 + vp_choose(VP_DEPTH ? 10 : 7, "length");
  std::string a = symName(len, "a");
  Tab t, u;
  const std::string pre = vp_flip("long prefix") ? "a prefix that does not fit into a short string: " : "";
  u.add("first");
  u.add(pre);
  const uint32_t i = t.add(pre + a), j = u.add(std::string(pre + a + "y").substr(0, pre.size() + a.size()));
  VP_ASSERT(i == j, "the ID of a name is the same in every table and independent of what else is in it");
  VP_ASSERT(t.collectionID(pre + a) == std::optional<uint32_t>(i) && *t.name(i) == pre + a, "name and ID belong together");
  VP_ASSERT(t.add(pre + a) == i && t.names().size() == 1, "adding again yields the same ID");
  vp_cover("done");
}
// a table from a file (any IDs), then extended
extern "C" void hm_from() {
  const int n = vp_choose(VP_DEPTH ? 5 : 4, "n");
  std::vector<uint32_t> ids;
  std::vector<std::string> names;
  const char* N[] = {"hits", "a collection name that is rather long", "", "x"};
  for (int i = 0; i < n; ++i) {
    uint32_t id = vp_sym<uint32_t>("id");
    for (auto o : ids)
      VP_ASSUME(o != id);
    ids.push_back(id);
    names.push_back(N[i]);
  }
  auto i2 = ids;
  auto n2 = names;
  Tab t = vp_flip("moved") ? Tab(std::move(i2), std::move(n2)) : Tab(ids, names);
  consistent(t, names, ids);
  uint32_t q = vp_sym<uint32_t>("q");
  bool known = false;
  for (auto i : ids)
    known |= i == q;
  VP_ASSERT(t.present(q) == known && t.name(q).has_value() == known, "exactly the stored IDs are known");
  VP_ASSERT(!t.present("new") && !t.collectionID("new"), "exactly the stored names are known");
  for (int i = 0; i < n; ++i)
    VP_ASSERT(t.add(names[i]) == ids[i], "a stored name keeps its stored ID");
  consistent(t, names, ids);
  const uint32_t id = t.add("new");
  bool clash = false;
  for (auto i : ids)
    clash |= i == id;
  VP_ASSUME(!clash);
  names.push_back("new");
  ids.push_back(id);
  consistent(t, names, ids);
  Tab m(std::move(t));
  consistent(m, names, ids);
  Tab a;
  a.add("gone");
  a = std::move(m);
  consistent(a, names, ids);
  VP_ASSERT(!a.present("gone"), "assignment replaces the contents");
  vp_cover("done");
}
