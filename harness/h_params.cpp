// Generic parameters: a typed map from names to lists of values
#include "io.h"
#include <array>
using namespace vio;
#ifndef VP_DEPTH
#define VP_DEPTH 0
#endif
static const int STEPS = VP_DEPTH ? 3 : 2;
static const char* KEYS[3] = {"k", "a key that is too long for a short string", "absent"};

template <typename T>
static T symv() { return vp_sym<T>("v"); }
template <>
std::string symv<std::string>() {
  char c = vp_sym<char>("c");
  switch (vp_choose(3, "string")) {
  case 0: return std::string();
  case 1: return std::string(1, c);
  }
  return std::string(20, 'x') + c;
}
template <typename T>
static bool eq(const T& a, const T& b) { return same(a, b); }
template <>
bool eq<std::string>(const std::string& a, const std::string& b) { return a == b; }
template <typename T>
static bool eqv(const std::vector<T>& a, const std::vector<T>& b) {
  if (a.size() != b.size())
    return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); ++i)
    r &= eq<T>(a[i], b[i]);
  return r;
}
template <typename T>
struct Model {
  std::vector<T> val[2];
  bool has[2] = {false, false};
};
template <typename T, typename O>
static void untouched(const podio::GenericParameters& p, bool other) {
  VP_ASSERT(p.getKeys<O>().size() == (other ? 1u : 0u), "other types have their own keys");
  auto v = p.get<O>(KEYS[0]);
  VP_ASSERT(v.has_value() == other, "other types have their own values");
}
template <typename T, typename O>
static void checkAll(const podio::GenericParameters& p, const Model<T>& m, bool other) {
  for (int k = 0; k < 3; ++k) {
    const bool has = k < 2 && m.has[k];
    auto s = p.get<T>(KEYS[k]);
    auto v = p.get<std::vector<T>>(KEYS[k]);
    VP_ASSERT(v.has_value() == has, "a list is there if the parameter was set");
    VP_ASSERT(s.has_value() == (has && !m.val[k].empty()), "a single value is there if the parameter has one");
    VP_ASSERT(p.getN<T>(KEYS[k]) == (has ? m.val[k].size() : 0), "the number of values");
    if (has) {
      VP_ASSERT(eqv<T>(*v, m.val[k]), "all values as they were set");
      if (!m.val[k].empty())
        VP_ASSERT(eq<T>(*s, m.val[k][0]), "the single value is the first one");
    }
  }
  const size_t n = m.has[0] + m.has[1];
  auto keys = p.getKeys<T>();
  auto vkeys = p.getKeys<std::vector<T>>();
  VP_ASSERT(keys.size() == n && vkeys == keys, "every name is listed once");
  auto [kk, vv] = p.getKeysAndValues<T>();
  VP_ASSERT(kk == keys && vv.size() == n, "names and values are listed together");
  for (int k = 0; k < 2; ++k) {
    VP_ASSERT(std::count(keys.begin(), keys.end(), KEYS[k]) == (m.has[k] ? 1 : 0), "the names that were set are listed");
    for (size_t i = 0; i < kk.size(); ++i)
      if (kk[i] == KEYS[k])
        VP_ASSERT(eqv<T>(vv[i], m.val[k]), "names are listed with their values");
  }
  VP_ASSERT(p.empty() == (n == 0 && !other), "empty if nothing is set");
  VP_ASSERT(p.getMap<T>().size() == n, "the map holds all names");
  untouched<T, O>(p, other);
}
// O: another type
template <typename T, typename O>
static void history() {
  podio::GenericParameters p0;
  auto cur = std::make_unique<podio::GenericParameters>(std::move(p0));
  Model<T> m;
  bool other = false;
  for (int s = 0; s < STEPS; ++s) {
    auto& p = *cur;
    const int op = vp_choose(9, "op");
    const int k = op < 4 ? vp_choose(2, "key") : 0;
    switch (op) {
    case 0: {
      T v = symv<T>();
      p.set(KEYS[k], v);
      m.val[k] = {v}, m.has[k] = true;
      break;
    }
    case 1: {
      std::vector<T> v(vp_choose(3, "n"));
      for (auto& x : v)
        x = symv<T>();
      p.set(KEYS[k], v);
      m.val[k] = v, m.has[k] = true;
      break;
    }
    case 2: {
      T a = symv<T>(), b = symv<T>();
      if constexpr (std::is_same_v<T, std::string>)
        p.set(KEYS[k], {a.c_str(), b.c_str()}), m.val[k] = {std::string(a.c_str()), std::string(b.c_str())};
      else
        p.set(KEYS[k], {a, b}), m.val[k] = {a, b};
      m.has[k] = true;
      break;
    }
    case 3: // values from a file, for names that are not there yet
      if (!m.has[k]) {
        std::vector<T> v = {symv<T>()};
        std::vector<std::string> ks = {KEYS[k]};
        std::vector<std::vector<T>> vs = {v};
        if (!m.has[1 - k]) {
          ks.push_back(KEYS[1 - k]);
          vs.push_back({});
          m.has[1 - k] = true, m.val[1 - k] = {};
        }
        p.loadFrom<T>(std::move(ks), std::move(vs));
        m.val[k] = v, m.has[k] = true;
      }
      break;
    case 4:
      p.clear();
      m = Model<T>();
      other = false;
      break;
    case 5: {
      auto c = std::make_unique<podio::GenericParameters>(p);
      checkAll<T, O>(p, m, other);
      p.set(KEYS[0], symv<T>()); // independent of the copy
      p.set(KEYS[2], symv<T>());
      cur = std::move(c);
      break;
    }
    case 6:
      cur = std::make_unique<podio::GenericParameters>(std::move(p));
      break;
    case 7: {
      auto c = std::make_unique<podio::GenericParameters>();
      c->set(KEYS[2], symv<T>());
      *c = std::move(p);
      cur = std::move(c);
      break;
    }
    case 8:
      p.set(KEYS[0], O{});
      other = true;
      break;
    }
    checkAll<T, O>(*cur, m, other);
  }
  vp_cover("done");
}
extern "C" void hm_par_int() { history<int, float>(); }
extern "C" void hm_par_float() { history<float, double>(); }
extern "C" void hm_par_double() { history<double, std::string>(); }
extern "C" void hm_par_string() { history<std::string, int>(); }

// names with any characters
extern "C" void hm_par_keys() {
  std::string a, b;
  const int la = vp_choose(3, "length"), lb = vp_choose(3, "length");
  for (int i = 0; i < la; ++i)
    a += vp_sym<char>("a");
  for (int i = 0; i < lb; ++i)
    b += vp_sym<char>("b");
  podio::GenericParameters p;
  int x = vp_sym<int>("x"), y = vp_sym<int>("y");
  p.set(a, x);
  p.set(b, y);
  if (a == b) {
    VP_ASSERT(p.getKeys<int>().size() == 1 && p.get<int>(a) == y, "the value set last counts");
    vp_cover("same name");
  } else {
    VP_ASSERT(p.getKeys<int>().size() == 2 && p.get<int>(a) == x && p.get<int>(b) == y, "different names do not interfere");
    vp_cover("different names");
  }
}
// what a writer puts into a file and a reader hands back, through the frame
extern "C" void hm_par_io() {
  podio::Frame f;
  const int i = vp_sym<int>("i");
  const float fl = vp_sym<float>("f");
  const double d = vp_sym<double>("d");
  const std::string s = symv<std::string>();
  std::vector<int> vi(vp_choose(3, "n"));
  for (auto& x : vi)
    x = vp_sym<int>("vi");
  f.putParameter("p", i);
  f.putParameter("p", fl);
  f.putParameter("p", d);
  f.putParameter("p", s);
  f.putParameter("vi", vi);
  f.putParameter("lit", "literal");
  f.putParameter("lits", {"one", "two", "three"});
  f.putParameter("fs", {fl, 1.f});
  // as the backends do it
  auto np = std::make_shared<podio::GenericParameters>();
  auto copy = [&]<typename T>(T) {
    auto [k, v] = f.getParameters().getKeysAndValues<T>();
    np->loadFrom<T>(std::move(k), std::move(v));
  };
  copy(int{}), copy(float{}), copy(double{}), copy(std::string{});
  RawData r;
  r.params = np;
  podio::Frame in = read(std::move(r));
  VP_ASSERT(in.getParameter<int>("p") == i, "an integer comes back");
  VP_ASSERT(same(*in.getParameter<float>("p"), fl), "a float comes back");
  VP_ASSERT(same(*in.getParameter<double>("p"), d), "a double comes back");
  VP_ASSERT(in.getParameter<std::string>("p") == s, "a string comes back");
  VP_ASSERT(in.getParameter<std::vector<int>>("vi") == vi, "a list comes back");
  VP_ASSERT(in.getParameter<std::string>("lit") == "literal", "a literal comes back");
  VP_ASSERT(in.getParameter<std::vector<std::string>>("lits") == (std::vector<std::string>{"one", "two", "three"}), "literals come back");
  VP_ASSERT(same((*in.getParameter<std::vector<float>>("fs"))[0], fl), "floats come back");
  VP_ASSERT(in.getParameterKeys<int>().size() == 2 && in.getParameterKeys<float>().size() == 2 && in.getParameterKeys<double>().size() == 1 &&
                in.getParameterKeys<std::string>().size() == 3, "all names come back, by type");
  VP_ASSERT(!in.getParameter<double>("vi") && !in.getParameter<int>("lit") && !in.getParameter<int>("nothing"), "nothing else is there");
  // moving the frame keeps them
  podio::Frame g = std::move(in);
  VP_ASSERT(g.getParameter<int>("p") == i && g.getParameter<std::string>("p") == s, "parameters move along with their frame");
  vp_cover("done");
}
