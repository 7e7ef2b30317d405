// A model of the part of ROOT that podio's backends use: files, trees, chains, ntuples. Objects are stored as copies; "files" are kept in memory.
// Where ROOT would crash or refuse, the model reports an assertion or the exception of ROOT. Objects that ROOT deletes when a chain goes to another file are deleted here, too.
#pragma once
#include "vp.h"
#include <cstdint>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
typedef long long Long64_t;
typedef int Int_t;
typedef char Option_t;

namespace rootmodel {
template <typename T>
void copyTo(T&, const T&) {
  VP_ASSERT(false, "ROOT model: an object that cannot be copied is stored");
}
struct Type {
  std::string name; // as registered, empty for unregistered types
  void* (*make)();
  void (*destroy)(void*);
  void (*assign)(void*, const void*);
};
inline std::map<std::string, const Type*>& classes() {
  static std::map<std::string, const Type*> m;
  return m;
}
// names as ROOT normalises them, as far as this is needed: no std::, no blanks, fixed width integers by their meaning
inline std::string normal(std::string s) {
  std::string out;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == ' ')
      continue;
    if (s.compare(i, 5, "std::") == 0) {
      i += 4;
      continue;
    }
    out += s[i];
  }
  return out;
}
template <typename T>
Type& typeOf() {
  static Type t{"", [] { return static_cast<void*>(new T()); }, [](void* p) { delete static_cast<T*>(p); }, [](void* d, const void* s) {
                  if constexpr (std::is_copy_assignable_v<T>)
                    *static_cast<T*>(d) = *static_cast<const T*>(s);
                  else
                    copyTo(*static_cast<T*>(d), *static_cast<const T*>(s));
                }};
  return t;
}
// the dictionary of a class
template <typename T>
void add(const std::string& name) {
  auto& t = typeOf<T>();
  if (t.name.empty())
    t.name = normal(name);
  classes()[normal(name)] = &t;
}
inline const Type* find(const std::string& name) {
  auto it = classes().find(normal(name));
  return it == classes().end() ? nullptr : it->second;
}
struct Object {
  const Type* type = nullptr;
  void* p = nullptr;
  Object(const Type* t, const void* src) : type(t), p(t->make()) {
    if (src)
      t->assign(p, src);
  }
  Object(const Object&) = delete;
  ~Object() { type->destroy(p); }
};
struct Column {
  std::string name, className;
  const Type* type = nullptr;
  std::vector<std::shared_ptr<Object>> entries;
};
struct Table { // what is stored of a tree or an ntuple
  std::vector<Column> cols;
  Long64_t n = 0;
  Column* find(std::string_view name) {
    for (auto& c : cols)
      if (c.name == name)
        return &c;
    return nullptr;
  }
};
struct File {
  std::map<std::string, std::shared_ptr<Table>> trees, ntuples;
};
inline std::map<std::string, std::shared_ptr<File>>& disk() {
  static std::map<std::string, std::shared_ptr<File>> d;
  return d;
}
} // namespace rootmodel

struct TObject {
  virtual ~TObject() = default;
  virtual const char* GetName() const { return ""; }
};

class TBranch : public TObject {
public:
  rootmodel::Column* m_col;
  std::shared_ptr<rootmodel::Table> m_table;
  void** m_addr = nullptr; // address of the pointer to the object
  void* m_own = nullptr;   // the pointer, if only the object is known
  TBranch(std::shared_ptr<rootmodel::Table> t, rootmodel::Column* c) : m_col(c), m_table(std::move(t)) {}
  const char* GetName() const override { return m_col->name.c_str(); }
  const char* GetClassName() const { return m_col->className.c_str(); }
  void SetAddress(const void* addr) { m_addr = static_cast<void**>(const_cast<void*>(addr)); }
  Int_t GetEntry(Long64_t n) {
    if (n < 0 || n >= (Long64_t)m_col->entries.size())
      return 0;
    if (!m_addr)
      return 0;
    if (!*m_addr)
      *m_addr = m_col->type->make();
    m_col->type->assign(*m_addr, m_col->entries[n]->p);
    return 1;
  }
  void Fill() {
    VP_ASSERT(m_addr && *m_addr, "ROOT model: a branch is filled without an object");
    m_col->entries.push_back(std::make_shared<rootmodel::Object>(m_col->type, *m_addr));
  }
  Long64_t GetZipBytes(Option_t* = "") const { return 10 + 3 * (Long64_t)m_col->name.size(); }
  Long64_t GetTotBytes(Option_t* = "") const { return 2 * GetZipBytes(); }
};

struct TObjArray {
  std::vector<TBranch*> v;
  TObject* FindObject(const char* name) const {
    for (auto* b : v)
      if (b->m_col->name == name)
        return b;
    return nullptr;
  }
  Int_t GetEntries() const { return v.size(); }
  auto begin() const { return v.begin(); }
  auto end() const { return v.end(); }
};

class TTree;
class TFile;
class TKey : public TObject {
public:
  std::string cls;
  explicit TKey(const char* c) : cls(c) {}
  const char* GetClassName() const { return cls.c_str(); }
};

class TTree : public TObject {
public:
  std::string m_name;
  std::shared_ptr<rootmodel::Table> m_data = std::make_shared<rootmodel::Table>();
  std::vector<std::unique_ptr<TBranch>> m_branches;
  TObjArray m_list;
  TFile* m_file = nullptr;
  TTree(const char* name, const char*) : m_name(name) { m_data->cols.reserve(64); }
  ~TTree() override;
  const char* GetName() const override { return m_name.c_str(); }
  void SetDirectory(TFile* f);
  TBranch* make(const char* name, const rootmodel::Type* t, std::string cls) {
    VP_ASSERT(t != nullptr, "ROOT model: a branch of a class without dictionary");
    VP_ASSERT(!m_data->find(name), "ROOT model: two branches of the same name");
    VP_ASSERT(m_data->cols.size() < 64 && m_data->n == 0, "ROOT model: limits");
    m_data->cols.push_back({name, std::move(cls), t, {}});
    m_branches.push_back(std::make_unique<TBranch>(m_data, &m_data->cols.back()));
    m_list.v.push_back(m_branches.back().get());
    return m_branches.back().get();
  }
  // the address of a pointer to the object, given with the name of the class
  TBranch* Branch(const char* name, const char* cls, void* addr) {
    auto* b = make(name, rootmodel::find(cls), cls);
    b->SetAddress(addr);
    return b;
  }
  // the object
  template <typename T>
  TBranch* Branch(const char* name, T* obj) {
    auto* b = make(name, &rootmodel::typeOf<T>(), rootmodel::typeOf<T>().name);
    b->m_own = obj;
    b->m_addr = &b->m_own;
    return b;
  }
  template <typename T>
  TBranch* Branch(const char* name, T** addr) {
    auto* b = make(name, &rootmodel::typeOf<T>(), rootmodel::typeOf<T>().name);
    b->SetAddress(addr);
    return b;
  }
  Int_t Fill() {
    for (auto& b : m_branches)
      b->Fill();
    m_data->n++;
    return 1;
  }
  virtual Int_t GetEntry(Long64_t n) { // only the branches in use
    Int_t k = 0;
    for (auto& b : m_branches)
      k += b->GetEntry(n);
    return k;
  }
  virtual Long64_t GetEntries() const { return m_data->n; }
  void show(const std::shared_ptr<rootmodel::Table>& t) { // the branches of a tree on file
    m_list.v.clear();
    m_branches.clear();
    for (auto& c : t->cols) {
      m_branches.push_back(std::make_unique<TBranch>(t, &c));
      m_list.v.push_back(m_branches.back().get());
    }
  }
  virtual TObjArray* GetListOfBranches() { return &m_list; }
};

class TFile : public TObject {
public:
  std::vector<std::unique_ptr<TObject>> keys; // only used where single keys matter
  struct List {
    std::vector<TObject*> v;
    auto begin() { return v.begin(); }
    auto end() { return v.end(); }
  } list;
  List* GetListOfKeys() {
    list.v.clear();
    for (auto& k : keys)
      list.v.push_back(k.get());
    return &list;
  }
  static TFile* Open(const char* name, const char* = "");

  std::string m_name;
  bool m_open = false;
  std::vector<TTree*> m_trees;
  std::vector<std::unique_ptr<TTree>> m_heap;
  TFile() = default;
  TFile(const char* name, const char* option, const char* = "") : m_name(name), m_open(true) {
    VP_ASSERT(std::string(option) == "recreate" || std::string(option) == "RECREATE", "ROOT model: files are recreated");
    rootmodel::disk()[m_name] = std::make_shared<rootmodel::File>();
  }
  TFile(const TFile&) = delete;
  ~TFile() override { Close(); }
  bool IsOpen() const { return m_open; }
  const char* GetName() const override { return m_name.c_str(); }
  TObject* Get(const char* name) { // a tree of a file that is read, which the file owns
    auto& f = *rootmodel::disk()[m_name];
    auto it = f.trees.find(name);
    if (it == f.trees.end())
      return nullptr;
    for (auto& t : m_heap)
      if (t->m_name == name)
        return t.get();
    m_heap.push_back(std::make_unique<TTree>(name, ""));
    m_heap.back()->m_data = it->second;
    m_heap.back()->show(it->second);
    return m_heap.back().get();
  }
  Int_t Write() {
    VP_ASSERT(m_open, "ROOT model: a closed file is written");
    for (auto* t : m_trees)
      rootmodel::disk()[m_name]->trees[t->m_name] = t->m_data;
    return 1;
  }
  void Close() {
    if (!m_open)
      return;
    m_open = false;
    auto trees = m_trees;
    m_trees.clear();
    for (auto* t : trees) {
      t->m_file = nullptr;
      if (!vp_on_stack(t))
        delete t;
    }
  }
  // a tree on the stack is not deleted (ROOT knows that from the address of the object)
  static bool vp_on_stack(TTree* t) { return t->m_name == "podio_metadata"; }
};
inline void TTree::SetDirectory(TFile* f) {
  m_file = f;
  f->m_trees.push_back(this);
}
inline TTree::~TTree() {
  if (m_file)
    for (auto& t : m_file->m_trees)
      if (t == this) {
        m_file->m_trees.erase(m_file->m_trees.begin() + (&t - m_file->m_trees.data()));
        break;
      }
}

class TChain : public TTree {
public:
  std::vector<std::string> m_files;
  int m_current = -1;
  std::unique_ptr<TFile> m_of; // the current file
  explicit TChain(const char* name) : TTree(name, "") {}
  std::shared_ptr<rootmodel::Table> table(const std::string& file) const {
    auto it = rootmodel::disk().find(file);
    if (it == rootmodel::disk().end())
      return nullptr;
    auto jt = it->second->trees.find(m_name);
    return jt == it->second->trees.end() ? nullptr : jt->second;
  }
  Int_t Add(const char* name, Long64_t nentries = 1234567890123456789LL) {
    if (nentries <= 0 && !table(name))
      return 0; // the header of the file was to be read
    m_files.push_back(name);
    return 1;
  }
  Long64_t GetEntries() const override {
    Long64_t n = 0;
    for (auto& f : m_files)
      if (auto t = table(f))
        n += t->n;
    return n;
  }
  Int_t GetTreeNumber() const { return m_current; }
  Long64_t LoadTree(Long64_t entry) {
    Long64_t at = 0;
    for (size_t i = 0; i < m_files.size(); ++i) {
      auto t = table(m_files[i]);
      const Long64_t n = t ? t->n : 0;
      if (entry < at + n || (entry == 0 && t && m_files.size() == 1)) {
        if (m_current != (int)i) { // the tree and its branches are deleted, that of the other file is read
          show(t);
          m_current = i;
          m_of.reset(new TFile);
          m_of->m_name = m_files[i];
        }
        return entry - at;
      }
      at += n;
    }
    return -2;
  }
  TFile* GetFile() {
    if (m_current < 0)
      LoadTree(0);
    return m_of.get();
  }
  TObjArray* GetListOfBranches() override {
    if (m_current < 0)
      LoadTree(0);
    return &m_list;
  }
};
