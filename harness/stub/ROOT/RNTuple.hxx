// A model of RNTuple: models, entries, writers, readers and views
#pragma once
#include "../rootmodel.h"
#include "../RVersion.h"
#include <type_traits>
namespace ROOT {
struct RException : std::runtime_error {
  using std::runtime_error::runtime_error;
};
template <typename T>
struct RResult {
  T value;
  T Unwrap() { return std::move(value); }
};
struct RFieldBase {
  std::string name, cls;
  const rootmodel::Type* type;
  static RResult<std::unique_ptr<RFieldBase>> Create(const std::string& name, const std::string& cls) {
    auto* t = rootmodel::find(cls);
    if (!t)
      throw RException("no dictionary for " + cls);
    return {std::make_unique<RFieldBase>(RFieldBase{name, cls, t})};
  }
};
struct RCompressionSetting {
  enum EDefaults { kUseGeneralPurpose = 505 };
};
struct RNTupleWriteOptions {
  void SetCompression(RCompressionSetting::EDefaults) {}
};
class REntry {
public:
  struct Value {
    std::string name;
    const rootmodel::Type* type;
    void* p;
    std::shared_ptr<rootmodel::Object> own;
  };
  std::vector<Value> values;
  Value& at(std::string_view name) {
    for (auto& v : values)
      if (v.name == name)
        return v;
    throw RException("invalid field name: " + std::string(name));
  }
  template <typename T>
  void BindRawPtr(std::string_view name, T* p) {
    auto& v = at(name);
    if constexpr (!std::is_void_v<T>)
      if (v.type != &rootmodel::typeOf<T>())
        throw RException("type mismatch for field " + std::string(name));
    v.p = p;
    v.own.reset();
  }
};
class RNTupleModel {
public:
  struct Field {
    std::string name, cls;
    const rootmodel::Type* type;
  };
  std::vector<Field> fields;
  std::unique_ptr<REntry> def;
  bool frozen = false;
  static std::unique_ptr<RNTupleModel> CreateBare() { return std::make_unique<RNTupleModel>(); }
  static std::unique_ptr<RNTupleModel> Create() {
    auto m = CreateBare();
    m->def = std::make_unique<REntry>();
    return m;
  }
  void add(const std::string& name, const std::string& cls, const rootmodel::Type* t) {
    if (frozen)
      throw RException("invalid attempt to modify frozen model");
    for (auto& f : fields)
      if (f.name == name)
        throw RException("field name '" + name + "' already exists in NTuple model");
    fields.push_back({name, cls, t});
  }
  void AddField(std::unique_ptr<RFieldBase> f) { add(f->name, f->cls, f->type); }
  template <typename T>
  std::shared_ptr<T> MakeField(std::string_view name) {
    add(std::string(name), "", &rootmodel::typeOf<T>());
    auto o = std::make_shared<rootmodel::Object>(&rootmodel::typeOf<T>(), nullptr);
    def->values.push_back({std::string(name), o->type, o->p, o});
    return std::shared_ptr<T>(o, static_cast<T*>(o->p));
  }
  void Freeze() { frozen = true; }
  std::unique_ptr<REntry> CreateBareEntry() const {
    auto e = std::make_unique<REntry>();
    for (auto& f : fields)
      e->values.push_back({f.name, f.type, nullptr, nullptr});
    return e;
  }
  std::unique_ptr<REntry> CreateEntry() const {
    auto e = CreateBareEntry();
    for (auto& v : e->values) {
      v.own = std::make_shared<rootmodel::Object>(v.type, nullptr);
      v.p = v.own->p;
    }
    return e;
  }
};
class RNTupleWriter {
public:
  std::unique_ptr<RNTupleModel> model;
  std::shared_ptr<rootmodel::Table> table = std::make_shared<rootmodel::Table>();
  std::string name;
  TFile* file = nullptr;
  std::shared_ptr<rootmodel::File> out;
  static std::unique_ptr<RNTupleWriter> Append(std::unique_ptr<RNTupleModel> m, std::string_view name, TFile& f, const RNTupleWriteOptions&) {
    auto w = std::make_unique<RNTupleWriter>();
    m->Freeze();
    for (auto& x : m->fields)
      w->table->cols.push_back({x.name, x.cls, x.type, {}});
    w->model = std::move(m);
    w->name = name;
    w->file = &f;
    VP_ASSERT(f.IsOpen(), "ROOT model: an ntuple is added to a closed file");
    w->out = rootmodel::disk()[f.m_name];
    return w;
  }
  const RNTupleModel& GetModel() const { return *model; }
  void Fill(REntry& e) {
    VP_ASSERT(e.values.size() == table->cols.size(), "ROOT model: the entry is one of this ntuple");
    for (size_t i = 0; i < e.values.size(); ++i) {
      VP_ASSERT(e.values[i].p != nullptr, "ROOT model: an ntuple is filled without an object");
      table->cols[i].entries.push_back(std::make_shared<rootmodel::Object>(table->cols[i].type, e.values[i].p));
    }
    table->n++;
  }
  void Fill() { Fill(*model->def); }
  ~RNTupleWriter() {
    if (out) {
      VP_ASSERT(file->IsOpen(), "ROOT model: an ntuple is completed after its file was closed"); // file is also gone then
      out->ntuples[name] = table;
    }
  }
};
template <typename T>
class RNTupleView {
public:
  std::shared_ptr<rootmodel::Table> table;
  size_t col;
  T value{};
  const T& operator()(uint64_t i) {
    if (i >= table->cols[col].entries.size())
      throw RException("entry out of range");
    value = *static_cast<const T*>(table->cols[col].entries[i]->p);
    return value;
  }
};
struct RNTupleDescriptor {
  struct RCreateModelOptions {
    void SetEmulateUnknownTypes(bool) {}
  };
};
class RNTupleReader {
public:
  std::shared_ptr<rootmodel::Table> table;
  RNTupleModel model;
  static std::unique_ptr<RNTupleReader> Open(std::string_view name, std::string_view file) {
    auto it = rootmodel::disk().find(std::string(file));
    if (it == rootmodel::disk().end())
      throw RException("no such file");
    auto jt = it->second->ntuples.find(std::string(name));
    if (jt == it->second->ntuples.end())
      throw RException("no such ntuple");
    auto r = std::make_unique<RNTupleReader>();
    r->table = jt->second;
    for (auto& c : r->table->cols)
      r->model.fields.push_back({c.name, c.className, c.type});
    return r;
  }
  static std::unique_ptr<RNTupleReader> Open(const RNTupleDescriptor::RCreateModelOptions&, std::string_view name, std::string_view file) { return Open(name, file); }
  const RNTupleModel& GetModel() { return model; }
  uint64_t GetNEntries() const { return table->n; }
  void LoadEntry(uint64_t i, REntry& e) {
    if (i >= (uint64_t)table->n)
      throw RException("entry out of range");
    for (size_t k = 0; k < e.values.size(); ++k) {
      VP_ASSERT(e.values[k].p != nullptr, "ROOT model: a field is read without an object");
      table->cols[k].type->assign(e.values[k].p, table->cols[k].entries[i]->p);
    }
  }
  template <typename T>
  RNTupleView<T> GetView(std::string_view name) {
    for (size_t i = 0; i < table->cols.size(); ++i)
      if (table->cols[i].name == name) {
        if (table->cols[i].type != &rootmodel::typeOf<T>())
          throw RException("type mismatch for field " + std::string(name));
        return {table, i};
      }
    throw RException("no field of this name");
  }
};
} // namespace ROOT
