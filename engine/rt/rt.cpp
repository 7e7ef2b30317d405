// Run time library of the symbolic executor: the parts of libstdc++/libsupc++ that live in the shared library and not
// in headers.  std::string, containers and smart pointers are the real header code; what is here follows the documented
// behaviour of the originals.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <mutex>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include <any>
#include <variant>
#include <optional>
#include <future>

extern "C" {
void vp_raise(void* obj, void* ti) __attribute__((noreturn));
uint64_t vp_next_prime(uint64_t n);
int vp_tid();
}

template class std::basic_string<char>;
template std::string std::operator+(const char*, const std::string&);
template std::string std::operator+(const std::string&, const char*);

// ------------------------------------------------------------------ exceptions
namespace {
struct ExcHdr {  // 64 bytes in front of the thrown object; the engine reads `ti`
  std::type_info* ti;
  void (*dtor)(void*);
  ExcHdr* next;
  int handlers;
  bool rethrown;
  char pad[64 - 32];
};
static_assert(sizeof(ExcHdr) == 64);
ExcHdr* caught[16];
int uncaught[16];
ExcHdr* hdr(void* o) { return reinterpret_cast<ExcHdr*>(o) - 1; }
}  // namespace

extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept {
  char* p = static_cast<char*>(std::malloc(n + sizeof(ExcHdr)));
  std::memset(p, 0, sizeof(ExcHdr));
  return p + sizeof(ExcHdr);
}
void __cxa_free_exception(void* o) noexcept { std::free(hdr(o)); }
void __cxa_throw(void* o, std::type_info* ti, void (*dtor)(void*)) {
  hdr(o)->ti = ti;
  hdr(o)->dtor = dtor;
  uncaught[vp_tid()]++;
  vp_raise(o, ti);
}
void* __cxa_get_exception_ptr(void* o) noexcept { return o; }
void* __cxa_begin_catch(void* o) noexcept {
  ExcHdr* h = hdr(o);
  h->rethrown = false;
  h->handlers++;
  if (caught[vp_tid()] != h) {
    h->next = caught[vp_tid()];
    caught[vp_tid()] = h;
  }
  uncaught[vp_tid()]--;
  return o;
}
void __cxa_end_catch() {
  ExcHdr* h = caught[vp_tid()];
  if (!h)
    return;
  if (--h->handlers == 0) {
    caught[vp_tid()] = h->next;
    if (!h->rethrown) {
      if (h->dtor)
        h->dtor(h + 1);
      std::free(h);
    }
  }
}
void __cxa_rethrow() {
  ExcHdr* h = caught[vp_tid()];
  if (!h)
    std::abort();
  h->rethrown = true;
  uncaught[vp_tid()]++;
  vp_raise(h + 1, h->ti);
}
void __clang_call_terminate(void*) { std::abort(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_alloc(); }
}

namespace std {
int uncaught_exceptions() noexcept { return uncaught[vp_tid()]; }
bool uncaught_exception() noexcept { return uncaught[vp_tid()] > 0; }

exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

// __cow_string: a plain heap copy
__cow_string::__cow_string() {
  char* c = static_cast<char*>(std::malloc(1));
  c[0] = 0;
  _M_p = c;
}
static char* dup(const char* s, size_t n) {
  char* c = static_cast<char*>(std::malloc(n + 1));
  std::memcpy(c, s, n);
  c[n] = 0;
  return c;
}
__cow_string::__cow_string(const std::string& s) { _M_p = dup(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = dup(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = dup(o._M_p, std::strlen(o._M_p)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept {
  if (this != &o) {
    std::free(const_cast<char*>(_M_p));
    _M_p = dup(o._M_p, std::strlen(o._M_p));
  }
  return *this;
}
__cow_string::~__cow_string() { std::free(const_cast<char*>(_M_p)); }

logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, std::strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, std::strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define VP_EXC(cls, base)                                \
  cls::cls(const string& s) : base(s) {}                 \
  cls::cls(const char* s) : base(s) {}                   \
  cls::~cls() noexcept {}
VP_EXC(out_of_range, logic_error)
VP_EXC(invalid_argument, logic_error)
VP_EXC(length_error, logic_error)
VP_EXC(domain_error, logic_error)
VP_EXC(range_error, runtime_error)
VP_EXC(overflow_error, runtime_error)
VP_EXC(underflow_error, runtime_error)

void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
struct vp_system_error : runtime_error {
  using runtime_error::runtime_error;
};
void __throw_system_error(int) { throw vp_system_error("system_error"); }

// ---------------------------------------------------------------- containers
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
  _M_next = p;
  _M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  _M_next->_M_prev = _M_prev;
  _M_prev->_M_next = _M_next;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    _M_prev->_M_next = first;
    _List_node_base* const tmp = _M_prev;
    _M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = tmp;
  }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  size_t b = vp_next_prime(n);
  _M_next_resize = b;
  return b;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nbkt, size_t nelt, size_t nins) const {
  if (nelt + nins > _M_next_resize) {
    size_t want = nelt + nins;
    if (_M_next_resize == 0 && want < 11)
      want = 11;
    if (want >= nbkt) {
      size_t g = nbkt * 2;
      return {true, _M_next_bkt(want + 1 > g ? want + 1 : g)};
    }
    _M_next_resize = nbkt;
    return {false, 0};
  }
  return {false, 0};
}
}  // namespace __detail

_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right != nullptr) {
    x = x->_M_right;
    while (x->_M_left != nullptr)
      x = x->_M_left;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) {
      x = y;
      y = y->_M_parent;
    }
    if (x->_M_right != y)
      x = y;
  }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept {
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
    x = x->_M_right;
  else if (x->_M_left != nullptr) {
    _Rb_tree_node_base* y = x->_M_left;
    while (y->_M_right != nullptr)
      y = y->_M_right;
    x = y;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) {
      x = y;
      y = y->_M_parent;
    }
    x = y;
  }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept {
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
// An (unbalanced but correctly linked) search tree behaves the same through the public interface. The header is kept
// red as in the original so that decrement(end()) works; all nodes are black except the header.
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& h) noexcept {
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) {
      h._M_parent = x;
      h._M_right = x;
    } else if (p == h._M_left)
      h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right)
      h._M_right = x;
  }
}
static _Rb_tree_node_base* rbMin(_Rb_tree_node_base* x) {
  while (x->_M_left)
    x = x->_M_left;
  return x;
}
static _Rb_tree_node_base* rbMax(_Rb_tree_node_base* x) {
  while (x->_M_right)
    x = x->_M_right;
  return x;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  auto replace = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) {
    if (h._M_parent == u)
      h._M_parent = v;
    else if (u->_M_parent->_M_left == u)
      u->_M_parent->_M_left = v;
    else
      u->_M_parent->_M_right = v;
    if (v)
      v->_M_parent = u->_M_parent;
  };
  if (!z->_M_left)
    replace(z, z->_M_right);
  else if (!z->_M_right)
    replace(z, z->_M_left);
  else {
    _Rb_tree_node_base* y = rbMin(z->_M_right);
    if (y->_M_parent != z) {
      replace(y, y->_M_right);
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    replace(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  if (h._M_parent) {
    h._M_left = rbMin(h._M_parent);
    h._M_right = rbMax(h._M_parent);
  } else {
    h._M_left = &h;
    h._M_right = &h;
  }
  return z;
}

// All keys land in one bucket: the outcome of lookups does not depend on the hash function.
size_t _Hash_bytes(const void*, size_t, size_t) { return 0; }
size_t _Fnv_hash_bytes(const void*, size_t, size_t) { return 0; }

// type_info
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info* t, void**, unsigned) const { return t == this; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
}  // namespace std

// ------------------------------------------------------------- dynamic_cast
extern "C" {
extern char _ZTVN10__cxxabiv120__si_class_type_infoE[];
extern char _ZTVN10__cxxabiv121__vmi_class_type_infoE[];
extern char _ZTVN10__cxxabiv117__class_type_infoE[];
char vp_keep_vts() {
  return _ZTVN10__cxxabiv120__si_class_type_infoE[0] + _ZTVN10__cxxabiv121__vmi_class_type_infoE[0] +
      _ZTVN10__cxxabiv117__class_type_infoE[0];
}
}
namespace {
struct TI {
  const char* vt;
  const char* name;
};
struct SI : TI {
  const TI* base;
};
struct VMIBase {
  const TI* base;
  long offFlags;
};
struct VMI : TI {
  unsigned flags, count;
  VMIBase bases[1];
};
bool same(const TI* a, const TI* b) { return a == b || a->name == b->name || std::strcmp(a->name, b->name) == 0; }
// find sub-object of type `want` in the object `p` of dynamic type t
const char* findBase(const char* p, const TI* t, const TI* want) {
  if (same(t, want))
    return p;
  if (t->vt == _ZTVN10__cxxabiv120__si_class_type_infoE + 16)
    return findBase(p, static_cast<const SI*>(t)->base, want);
  if (t->vt == _ZTVN10__cxxabiv121__vmi_class_type_infoE + 16) {
    auto* v = static_cast<const VMI*>(t);
    for (unsigned i = 0; i < v->count; ++i) {
      long f = v->bases[i].offFlags;
      const char* q = p;
      if (f & 1) {
        const char* vt = *reinterpret_cast<const char* const*>(p);
        q = p + *reinterpret_cast<const long*>(vt + (f >> 8));
      } else
        q = p + (f >> 8);
      if (const char* r = findBase(q, v->bases[i].base, want))
        return r;
    }
  }
  return nullptr;
}
}  // namespace
extern "C" void* __dynamic_cast(const void* src, const void*, const void* dst, long) {
  const char* vt = *static_cast<const char* const*>(src);
  long top = *reinterpret_cast<const long*>(vt - 16);
  const TI* t = *reinterpret_cast<const TI* const*>(vt - 8);
  const char* full = static_cast<const char*>(src) + top;
  return const_cast<char*>(findBase(full, t, static_cast<const TI*>(dst)));
}

