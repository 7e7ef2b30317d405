// Expression DAG (hash-consed bit-vector / IEEE-754 terms) and the Z3 back end.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <chrono>
#include <functional>
#include <algorithm>
#include <z3.h>

namespace vp {
using u128 = unsigned __int128;

enum class Op : uint8_t {
  Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
  Eq, Ult, Ule, Slt, Sle, Concat, Extract, ZExt, SExt, Ite,
  FAdd, FSub, FMul, FDiv, FOeq, FOlt, FOle, FUno, FPExt, FPTrunc, SIToFP, UIToFP, FPToSI, FPToUI
};

struct Expr {
  Op op;
  bool uninit = false;  // mentions an uninitialised byte
  uint32_t w = 0;
  uint32_t aux = 0;  // Extract: low bit, Sym: symbol index, FP: source width
  uint32_t id = 0;
  const Expr* k[3] = {nullptr, nullptr, nullptr};
  u128 c = 0;
  uint64_t hash() const {
    uint64_t h = (uint64_t)op * 0x9E3779B97F4A7C15ull + w * 0x85ebca6bull + aux;
    for (auto* p : k) {
      h = (h ^ (p ? p->id + 1 : 0)) * 0xff51afd7ed558ccdull;
      h ^= h >> 33;
    }
    h ^= (uint64_t)c * 0xc4ceb9fe1a85ec53ull;
    h ^= (uint64_t)(c >> 64) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    return h;
  }
  bool same(const Expr& o) const {
    return op == o.op && w == o.w && aux == o.aux && k[0] == o.k[0] && k[1] == o.k[1] && k[2] == o.k[2] && c == o.c;
  }
};
using E = const Expr*;

inline u128 maskW(uint32_t w) {
  return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);
}
inline __int128 sextW(u128 v, uint32_t w) {
  if (w >= 128)
    return (__int128)v;
  v &= maskW(w);
  if ((v >> (w - 1)) & 1)
    v |= ~maskW(w);
  return (__int128)v;
}

struct SymInfo {
  std::string name;  // group name given by the harness
  uint32_t byteIdx = 0;
  bool uninit = false;
  uint32_t w = 8;
};

// Applies an operator to constants. Returns false if undefined (division by zero)
inline bool foldOp(Op op, uint32_t w, uint32_t aux, u128 a, u128 b, u128 c, uint32_t wa, uint32_t wb, u128& r) {
  auto m = maskW(w);
  auto asD = [](u128 v, uint32_t w) -> double {
    if (w == 32) {
      float f;
      uint32_t x = (uint32_t)v;
      memcpy(&f, &x, 4);
      return f;
    }
    double d;
    uint64_t x = (uint64_t)v;
    memcpy(&d, &x, 8);
    return d;
  };
  auto asF = [](u128 v) -> float {
    float f;
    uint32_t x = (uint32_t)v;
    memcpy(&f, &x, 4);
    return f;
  };
  auto fromD = [](double d, uint32_t w) -> u128 {
    if (w == 32) {
      float f = (float)d;
      uint32_t x;
      memcpy(&x, &f, 4);
      return x;
    }
    uint64_t x;
    memcpy(&x, &d, 8);
    return x;
  };
  auto fromF = [](float f) -> u128 {
    uint32_t x;
    memcpy(&x, &f, 4);
    return x;
  };
  switch (op) {
  case Op::Add: r = (a + b) & m; return true;
  case Op::Sub: r = (a - b) & m; return true;
  case Op::Mul: r = (a * b) & m; return true;
  case Op::UDiv: if (!b) return false; r = (a / b) & m; return true;
  case Op::URem: if (!b) return false; r = (a % b) & m; return true;
  case Op::SDiv: if (!b) return false; r = (u128)(sextW(a, w) / sextW(b, w)) & m; return true;
  case Op::SRem: if (!b) return false; r = (u128)(sextW(a, w) % sextW(b, w)) & m; return true;
  case Op::Shl: r = b >= w ? 0 : (a << (unsigned)b) & m; return true;
  case Op::LShr: r = b >= w ? 0 : (a >> (unsigned)b) & m; return true;
  case Op::AShr: r = (u128)(sextW(a, w) >> (unsigned)(b >= w ? w - 1 : b)) & m; return true;
  case Op::And: r = a & b; return true;
  case Op::Or: r = a | b; return true;
  case Op::Xor: r = a ^ b; return true;
  case Op::Eq: r = a == b; return true;
  case Op::Ult: r = a < b; return true;
  case Op::Ule: r = a <= b; return true;
  case Op::Slt: r = sextW(a, wa) < sextW(b, wa); return true;
  case Op::Sle: r = sextW(a, wa) <= sextW(b, wa); return true;
  case Op::Concat: r = wb >= 128 ? b : ((a << wb) | b); r &= m; return true;
  case Op::Extract: r = (a >> aux) & m; return true;
  case Op::ZExt: r = a; return true;
  case Op::SExt: r = (u128)sextW(a, wa) & m; return true;
  case Op::Ite: r = (a & 1) ? b : c; return true;
  case Op::FAdd: r = w == 32 ? fromF(asF(a) + asF(b)) : fromD(asD(a, 64) + asD(b, 64), 64); return true;
  case Op::FSub: r = w == 32 ? fromF(asF(a) - asF(b)) : fromD(asD(a, 64) - asD(b, 64), 64); return true;
  case Op::FMul: r = w == 32 ? fromF(asF(a) * asF(b)) : fromD(asD(a, 64) * asD(b, 64), 64); return true;
  case Op::FDiv: r = w == 32 ? fromF(asF(a) / asF(b)) : fromD(asD(a, 64) / asD(b, 64), 64); return true;
  case Op::FOeq: r = asD(a, wa) == asD(b, wa); return true;
  case Op::FOlt: r = asD(a, wa) < asD(b, wa); return true;
  case Op::FOle: r = asD(a, wa) <= asD(b, wa); return true;
  case Op::FUno: r = std::isnan(asD(a, wa)) || std::isnan(asD(b, wa)); return true;
  case Op::FPExt: r = fromD(asD(a, wa), w); return true;
  case Op::FPTrunc: r = fromD(asD(a, wa), w); return true;
  case Op::SIToFP: r = w == 32 ? fromF((float)(int64_t)sextW(a, wa)) : fromD((double)(int64_t)sextW(a, wa), 64); return true;
  case Op::UIToFP: r = w == 32 ? fromF((float)(uint64_t)a) : fromD((double)(uint64_t)a, 64); return true;
  case Op::FPToSI: r = (u128)(__int128)(int64_t)asD(a, wa) & m; return true;
  case Op::FPToUI: r = (u128)(uint64_t)asD(a, wa) & m; return true;
  default: return false;
  }
}

class Ctx {
public:
  std::deque<Expr> arena;
  struct H {
    size_t operator()(E e) const { return e->hash(); }
  };
  struct Q {
    bool operator()(E a, E b) const { return a->same(*b); }
  };
  std::unordered_set<E, H, Q> table;
  std::vector<SymInfo> syms;

  E intern(Expr& x) {
    auto it = table.find(&x);
    if (it != table.end())
      return *it;
    for (auto* p : x.k)
      if (p && p->uninit)
        x.uninit = true;
    x.id = (uint32_t)arena.size();
    arena.push_back(x);
    E e = &arena.back();
    table.insert(e);
    return e;
  }
  E cst(u128 v, uint32_t w) {
    Expr x;
    x.op = Op::Const;
    x.w = w;
    x.c = v & maskW(w);
    return intern(x);
  }
  E newSym(const std::string& name, uint32_t byteIdx, bool uninit = false, uint32_t w = 8) {
    Expr x;
    x.op = Op::Sym;
    x.w = w;
    x.aux = (uint32_t)syms.size();
    x.uninit = uninit;
    syms.push_back({name, byteIdx, uninit, w});
    return intern(x);
  }
  static bool isC(E e) { return e->op == Op::Const; }
  E bnot(E a) {
    if (isC(a))
      return cst(~a->c, a->w);
    return bin(Op::Xor, a, cst(~(u128)0, a->w));
  }
  E bin(Op op, E a, E b) {
    uint32_t w = a->w;
    bool cmp = op == Op::Eq || op == Op::Ult || op == Op::Ule || op == Op::Slt || op == Op::Sle || op == Op::FOeq ||
        op == Op::FOlt || op == Op::FOle || op == Op::FUno;
    uint32_t rw = cmp ? 1 : w;
    if (isC(a) && isC(b)) {
      u128 r;
      if (foldOp(op, rw, 0, a->c, b->c, 0, a->w, b->w, r))
        return cst(r, rw);
    }
    bool comm = op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq;
    if (comm && isC(a))
      std::swap(a, b);
    if (comm && !isC(b) && a->id > b->id)
      std::swap(a, b);
    if (isC(b)) {
      u128 c = b->c, all = maskW(w);
      switch (op) {
      case Op::Add:
        if (!c) return a;
        if (a->op == Op::Add && isC(a->k[1])) return bin(Op::Add, a->k[0], cst(a->k[1]->c + c, w));
        break;
      case Op::Sub:
        if (!c) return a;
        return bin(Op::Add, a, cst((u128)0 - c, w));
      case Op::Mul:
        if (!c) return b;
        if (c == 1) return a;
        break;
      case Op::UDiv:
        if (c == 1) return a;
        if (c && (c & (c - 1)) == 0) return bin(Op::LShr, a, cst(lg2(c), w));
        break;
      case Op::URem:
        if (c == 1) return cst(0, w);
        if (c && (c & (c - 1)) == 0) return bin(Op::And, a, cst(c - 1, w));
        break;
      case Op::Shl:
        if (!c) return a;
        if (c >= w) return cst(0, w);
        return concat(extract(a, 0, w - (uint32_t)c), cst(0, (uint32_t)c));
      case Op::LShr:
        if (!c) return a;
        if (c >= w) return cst(0, w);
        return zext(extract(a, (uint32_t)c, w - (uint32_t)c), w);
      case Op::AShr:
        if (!c) return a;
        if (c >= w) c = w - 1;
        return sext(extract(a, (uint32_t)c, w - (uint32_t)c), w);
      case Op::And:
        if (!c) return b;
        if (c == all) return a;
        if (a->op == Op::And && isC(a->k[1])) return bin(Op::And, a->k[0], cst(a->k[1]->c & c, w));
        if ((c & (c + 1)) == 0) {  // low mask
          uint32_t n = lg2(c + 1);
          return zext(extract(a, 0, n), w);
        }
        if (a->op == Op::ZExt) {
          uint32_t n = a->k[0]->w;
          return zext(bin(Op::And, a->k[0], cst(c & maskW(n), n)), w);
        }
        if (a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2]))
          return ite(a->k[0], cst(a->k[1]->c & c, w), cst(a->k[2]->c & c, w));
        break;
      case Op::Or:
        if (!c) return a;
        if (c == all) return b;
        if (a->op == Op::Or && isC(a->k[1])) return bin(Op::Or, a->k[0], cst(a->k[1]->c | c, w));
        break;
      case Op::Xor:
        if (!c) return a;
        if (a->op == Op::Xor && isC(a->k[1])) return bin(Op::Xor, a->k[0], cst(a->k[1]->c ^ c, w));
        if (w == 1 && c == 1 && a->op == Op::Ult) return bin(Op::Ule, a->k[1], a->k[0]);
        if (w == 1 && c == 1 && a->op == Op::Ule) return bin(Op::Ult, a->k[1], a->k[0]);
        if (w == 1 && c == 1 && a->op == Op::Slt) return bin(Op::Sle, a->k[1], a->k[0]);
        if (w == 1 && c == 1 && a->op == Op::Sle) return bin(Op::Slt, a->k[1], a->k[0]);
        break;
      case Op::Eq:
        if (w == 1) return c ? a : bnot(a);
        if (a->op == Op::ZExt) {
          uint32_t n = a->k[0]->w;
          if (c >> n) return cst(0, 1);
          return bin(Op::Eq, a->k[0], cst(c, n));
        }
        if (a->op == Op::SExt) {
          uint32_t n = a->k[0]->w;
          if (((u128)sextW(c & maskW(n), n) & all) != c) return cst(0, 1);
          return bin(Op::Eq, a->k[0], cst(c & maskW(n), n));
        }
        if (a->op == Op::Add && isC(a->k[1])) return bin(Op::Eq, a->k[0], cst(c - a->k[1]->c, w));
        if (a->op == Op::Xor && isC(a->k[1])) return bin(Op::Eq, a->k[0], cst(c ^ a->k[1]->c, w));
        if (a->op == Op::Ite && (isC(a->k[1]) || isC(a->k[2]))) {
          E x = bin(Op::Eq, a->k[1], b), y = bin(Op::Eq, a->k[2], b);
          return ite(a->k[0], x, y);
        }
        if (a->op == Op::Concat) {
          E hi = a->k[0], lo = a->k[1];
          if (isC(hi) || isC(lo)) {
            E x = bin(Op::Eq, hi, cst(c >> lo->w, hi->w)), y = bin(Op::Eq, lo, cst(c, lo->w));
            return bin(Op::And, x, y);
          }
        }
        break;
      case Op::Ult:
        if (!c) return cst(0, 1);
        if (c == 1) return bin(Op::Eq, a, cst(0, w));
        if (a->op == Op::ZExt) {
          uint32_t n = a->k[0]->w;
          if (c > maskW(n)) return cst(1, 1);
          return bin(Op::Ult, a->k[0], cst(c, n));
        }
        break;
      case Op::Ule:
        if (c == all) return cst(1, 1);
        if (!c) return bin(Op::Eq, a, b);
        return bin(Op::Ult, a, cst(c + 1, w));
      case Op::Slt:
        if (a->op == Op::ZExt && a->k[0]->w < w) {
          if (sextW(c, w) <= 0) return cst(0, 1);
          return bin(Op::Ult, a, b);
        }
        break;
      case Op::Sle:
        if (a->op == Op::ZExt && a->k[0]->w < w) {
          if (sextW(c, w) < 0) return cst(0, 1);
          return bin(Op::Ule, a, b);
        }
        break;
      default: break;
      }
    }
    if (isC(a)) {
      u128 c = a->c;
      switch (op) {
      case Op::Ult:
        if (c == maskW(w)) return cst(0, 1);
        if (b->op == Op::ZExt) {
          uint32_t n = b->k[0]->w;
          if (c >= maskW(n)) return cst(0, 1);
          return bin(Op::Ult, cst(c, n), b->k[0]);
        }
        break;
      case Op::Ule:
        if (!c) return cst(1, 1);
        return bin(Op::Ult, cst(c - 1, w), b);
      case Op::Slt:
        if (b->op == Op::ZExt && b->k[0]->w < w) {
          if (sextW(c, w) < 0) return cst(1, 1);
          return bin(Op::Ult, a, b);
        }
        break;
      case Op::Sle:
        if (b->op == Op::ZExt && b->k[0]->w < w) {
          if (sextW(c, w) <= 0) return cst(1, 1);
          return bin(Op::Ule, a, b);
        }
        break;
      case Op::Shl:
      case Op::LShr:
        if (!c) return a;
        break;
      default: break;
      }
    }
    if (a == b) {
      switch (op) {
      case Op::Sub: case Op::Xor: return cst(0, w);
      case Op::And: case Op::Or: return a;
      case Op::Eq: case Op::Ule: case Op::Sle: return cst(1, 1);
      case Op::Ult: case Op::Slt: return cst(0, 1);
      default: break;
      }
    }
    if (op == Op::Eq && a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w)
      return bin(Op::Eq, a->k[0], b->k[0]);
    if (op == Op::Eq && a->op == Op::Concat && b->op == Op::Concat && a->k[1]->w == b->k[1]->w)
      return bin(Op::And, bin(Op::Eq, a->k[0], b->k[0]), bin(Op::Eq, a->k[1], b->k[1]));
    if ((op == Op::And || op == Op::Or) && w == 1) {
      // x & !x, x | !x
      auto isNotOf = [&](E p, E q) { return p->op == Op::Xor && isC(p->k[1]) && p->k[0] == q; };
      if (isNotOf(a, b) || isNotOf(b, a))
        return cst(op == Op::Or, 1);
    }
    if (op == Op::Or) {
      // disjoint pieces: (zext x) | (y ++ 0) -> concat
      auto tryMerge = [&](E lo, E hi) -> E {
        if (lo->op == Op::ZExt && hi->op == Op::Concat && isC(hi->k[1]) && hi->k[1]->c == 0) {
          uint32_t nz = hi->k[1]->w;
          if (lo->k[0]->w <= nz)
            return concat(hi->k[0], zext(lo->k[0], nz));
        }
        return nullptr;
      };
      if (E r = tryMerge(a, b)) return r;
      if (E r = tryMerge(b, a)) return r;
    }
    Expr x;
    x.op = op;
    x.w = rw;
    x.k[0] = a;
    x.k[1] = b;
    return intern(x);
  }
  static uint32_t lg2(u128 v) {
    uint32_t n = 0;
    while (v > 1) {
      v >>= 1;
      n++;
    }
    return n;
  }
  E extract(E a, uint32_t lo, uint32_t w) {
    if (lo == 0 && w == a->w)
      return a;
    if (isC(a))
      return cst(a->c >> lo, w);
    if (a->op == Op::Extract)
      return extract(a->k[0], a->aux + lo, w);
    if (a->op == Op::Concat) {
      uint32_t lw = a->k[1]->w;
      if (lo >= lw)
        return extract(a->k[0], lo - lw, w);
      if (lo + w <= lw)
        return extract(a->k[1], lo, w);
      return concat(extract(a->k[0], 0, lo + w - lw), extract(a->k[1], lo, lw - lo));
    }
    if (a->op == Op::ZExt) {
      uint32_t n = a->k[0]->w;
      if (lo >= n)
        return cst(0, w);
      if (lo + w <= n)
        return extract(a->k[0], lo, w);
      return zext(extract(a->k[0], lo, n - lo), w);
    }
    if (a->op == Op::SExt) {
      uint32_t n = a->k[0]->w;
      if (lo + w <= n)
        return extract(a->k[0], lo, w);
      if (lo < n)
        return sext(extract(a->k[0], lo, n - lo), w);
    }
    if (a->op == Op::Ite && (isC(a->k[1]) || isC(a->k[2])))
      return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
    if (lo == 0 && (a->op == Op::And || a->op == Op::Or || a->op == Op::Xor || a->op == Op::Add || a->op == Op::Sub) &&
        isC(a->k[1]))
      return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
    Expr x;
    x.op = Op::Extract;
    x.w = w;
    x.aux = lo;
    x.k[0] = a;
    return intern(x);
  }
  E concat(E hi, E lo) {
    uint32_t w = hi->w + lo->w;
    if (isC(hi) && isC(lo) && w <= 128)
      return cst((hi->c << lo->w) | lo->c, w);
    if (isC(hi) && hi->c == 0)
      return zext(lo, w);
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w)
      return extract(hi->k[0], lo->aux, w);
    // hi ++ (m ++ rest) with hi,m adjacent
    if (lo->op == Op::Concat && hi->op == Op::Extract && lo->k[0]->op == Op::Extract && hi->k[0] == lo->k[0]->k[0] &&
        hi->aux == lo->k[0]->aux + lo->k[0]->w)
      return concat(extract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
    if (lo->op == Op::Concat && isC(hi) && isC(lo->k[0]) && hi->w + lo->k[0]->w <= 128)
      return concat(cst((hi->c << lo->k[0]->w) | lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
    if (hi->op == Op::ZExt && false)
      return nullptr;
    Expr x;
    x.op = Op::Concat;
    x.w = w;
    x.k[0] = hi;
    x.k[1] = lo;
    return intern(x);
  }
  E zext(E a, uint32_t w) {
    if (a->w == w)
      return a;
    if (isC(a))
      return cst(a->c, w);
    if (a->op == Op::ZExt)
      a = a->k[0];
    if (a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2]))
      return ite(a->k[0], cst(a->k[1]->c, w), cst(a->k[2]->c, w));
    Expr x;
    x.op = Op::ZExt;
    x.w = w;
    x.k[0] = a;
    return intern(x);
  }
  E sext(E a, uint32_t w) {
    if (a->w == w)
      return a;
    if (isC(a))
      return cst((u128)sextW(a->c, a->w), w);
    if (a->op == Op::SExt)
      a = a->k[0];
    if (a->op == Op::ZExt && a->k[0]->w < a->w)
      return zext(a->k[0], w);
    Expr x;
    x.op = Op::SExt;
    x.w = w;
    x.k[0] = a;
    return intern(x);
  }
  E ite(E c, E a, E b) {
    if (isC(c))
      return c->c & 1 ? a : b;
    if (a == b)
      return a;
    if (a->w == 1) {
      if (isC(a) && isC(b))
        return a->c ? c : bnot(c);
      if (isC(a))
        return a->c ? bin(Op::Or, c, b) : bin(Op::And, bnot(c), b);
      if (isC(b))
        return b->c ? bin(Op::Or, bnot(c), a) : bin(Op::And, c, a);
    }
    if (c->op == Op::Xor && isC(c->k[1]))
      return ite(c->k[0], b, a);
    Expr x;
    x.op = Op::Ite;
    x.w = a->w;
    x.k[0] = c;
    x.k[1] = a;
    x.k[2] = b;
    return intern(x);
  }
  E un(Op op, E a, uint32_t w) {  // conversions
    if (isC(a)) {
      u128 r;
      if (foldOp(op, w, 0, a->c, 0, 0, a->w, 0, r))
        return cst(r, w);
    }
    Expr x;
    x.op = op;
    x.w = w;
    x.k[0] = a;
    return intern(x);
  }
};

// A model: symbol index -> value (missing = 0)
using Model = std::unordered_map<uint32_t, uint64_t>;

inline u128 evalE(E e, const Model& m, std::unordered_map<E, u128>& memo) {
  if (e->op == Op::Const)
    return e->c;
  if (e->op == Op::Sym) {
    auto it = m.find(e->aux);
    return it == m.end() ? 0 : (it->second & maskW(e->w));
  }
  auto it = memo.find(e);
  if (it != memo.end())
    return it->second;
  u128 a = evalE(e->k[0], m, memo), b = 0, c = 0, r = 0;
  if (e->op == Op::Ite) {
    r = (a & 1) ? evalE(e->k[1], m, memo) : evalE(e->k[2], m, memo);
    memo[e] = r;
    return r;
  }
  if (e->k[1])
    b = evalE(e->k[1], m, memo);
  if (!foldOp(e->op, e->w, e->aux, a, b, c, e->k[0]->w, e->k[1] ? e->k[1]->w : 0, r)) {
    // division by zero, SMT-LIB semantics
    if (e->op == Op::UDiv) r = maskW(e->w);
    else if (e->op == Op::URem || e->op == Op::SRem) r = a;
    else if (e->op == Op::SDiv) r = (sextW(a, e->w) < 0) ? 1 : maskW(e->w);
  }
  r &= maskW(e->w);
  memo[e] = r;
  return r;
}

enum class Sat { Sat, Unsat, Unknown };

class Solver {
public:
  Ctx& cx;
  Z3_context z;
  Z3_solver s = nullptr;
  std::vector<Z3_ast> bvMemo, boolMemo;
  std::vector<E> stack;  // asserted prefix, one push per entry
  uint64_t queries = 0, satN = 0, unsatN = 0, unknownN = 0;
  double solverTime = 0, maxQuery = 0;
  uint64_t modelBad = 0;
  unsigned timeoutMs = 60000;

  Solver(Ctx& c) : cx(c) {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    z = Z3_mk_context_rc(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(z, [](Z3_context c, Z3_error_code e) {
      fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e));
      _exit(3);
    });
    mk();
  }
  void mk() {
    if (s)
      Z3_solver_dec_ref(z, s);
    s = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, usesFP ? "QF_FPBV" : "QF_BV"));
    if (usesFP) s = Z3_mk_simple_solver(z);
    Z3_solver_inc_ref(z, s);
    Z3_params p = Z3_mk_params(z);
    Z3_params_inc_ref(z, p);
    Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), timeoutMs);
    Z3_solver_set_params(z, s, p);
    Z3_params_dec_ref(z, p);
    stack.clear();
  }
  bool usesFP = false;
  Z3_ast keep(Z3_ast a) {
    Z3_inc_ref(z, a);
    return a;
  }
  Z3_sort keepS(Z3_sort x) { Z3_inc_ref(z, Z3_sort_to_ast(z, x)); return x; }
  Z3_sort bv(uint32_t w) { return keepS(Z3_mk_bv_sort(z, w)); }
  Z3_sort fps(uint32_t w) { return keepS(w == 32 ? Z3_mk_fpa_sort_32(z) : Z3_mk_fpa_sort_64(z)); }
  Z3_ast toFP(E e) {
    usesFP = true;
    return keep(Z3_mk_fpa_to_fp_bv(z, toBV(e), fps(e->w)));
  }
  Z3_ast toBool(E e) {
    if (e->id < boolMemo.size() && boolMemo[e->id])
      return boolMemo[e->id];
    Z3_ast r;
    switch (e->op) {
    case Op::Const: r = e->c ? Z3_mk_true(z) : Z3_mk_false(z); break;
    case Op::Eq: r = e->k[0]->w == 1 ? Z3_mk_iff(z, toBool(e->k[0]), toBool(e->k[1])) : Z3_mk_eq(z, toBV(e->k[0]), toBV(e->k[1])); break;
    case Op::Ult: r = Z3_mk_bvult(z, toBV(e->k[0]), toBV(e->k[1])); break;
    case Op::Ule: r = Z3_mk_bvule(z, toBV(e->k[0]), toBV(e->k[1])); break;
    case Op::Slt: r = Z3_mk_bvslt(z, toBV(e->k[0]), toBV(e->k[1])); break;
    case Op::Sle: r = Z3_mk_bvsle(z, toBV(e->k[0]), toBV(e->k[1])); break;
    case Op::And: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_and(z, 2, a); break; }
    case Op::Or: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_or(z, 2, a); break; }
    case Op::Xor: r = Z3_mk_xor(z, toBool(e->k[0]), toBool(e->k[1])); break;
    case Op::Ite: r = Z3_mk_ite(z, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
    case Op::FOeq: r = Z3_mk_fpa_eq(z, toFP(e->k[0]), toFP(e->k[1])); break;
    case Op::FOlt: r = Z3_mk_fpa_lt(z, toFP(e->k[0]), toFP(e->k[1])); break;
    case Op::FOle: r = Z3_mk_fpa_leq(z, toFP(e->k[0]), toFP(e->k[1])); break;
    case Op::FUno: { Z3_ast a[2] = {keep(Z3_mk_fpa_is_nan(z, toFP(e->k[0]))), keep(Z3_mk_fpa_is_nan(z, toFP(e->k[1])))}; r = Z3_mk_or(z, 2, a); break; }
    default: r = Z3_mk_eq(z, toBV(e), Z3_mk_unsigned_int(z, 1, bv(1)));
    }
    keep(r);
    if (boolMemo.size() <= e->id)
      boolMemo.resize(e->id * 2 + 64);
    boolMemo[e->id] = r;
    return r;
  }
  Z3_ast toBV(E e) {
    if (e->id < bvMemo.size() && bvMemo[e->id])
      return bvMemo[e->id];
    Z3_ast r = nullptr;
    auto A = [&](int i) { return toBV(e->k[i]); };
    switch (e->op) {
    case Op::Const: {
      if (e->w <= 64)
        r = Z3_mk_unsigned_int64(z, (uint64_t)e->c, bv(e->w));
      else {
        Z3_ast hi = keep(Z3_mk_unsigned_int64(z, (uint64_t)(e->c >> 64), bv(e->w > 128 ? 64 : e->w - 64)));
        Z3_ast lo = keep(Z3_mk_unsigned_int64(z, (uint64_t)e->c, bv(64)));
        r = Z3_mk_concat(z, hi, lo);
        if (e->w > 128) r = Z3_mk_zero_ext(z, e->w - 128, keep(r));
      }
      break;
    }
    case Op::Sym: r = Z3_mk_const(z, Z3_mk_int_symbol(z, e->aux), bv(e->w)); break;
    case Op::Add: r = Z3_mk_bvadd(z, A(0), A(1)); break;
    case Op::Sub: r = Z3_mk_bvsub(z, A(0), A(1)); break;
    case Op::Mul: r = Z3_mk_bvmul(z, A(0), A(1)); break;
    case Op::UDiv: r = Z3_mk_bvudiv(z, A(0), A(1)); break;
    case Op::SDiv: r = Z3_mk_bvsdiv(z, A(0), A(1)); break;
    case Op::URem: r = Z3_mk_bvurem(z, A(0), A(1)); break;
    case Op::SRem: r = Z3_mk_bvsrem(z, A(0), A(1)); break;
    case Op::Shl: r = Z3_mk_bvshl(z, A(0), A(1)); break;
    case Op::LShr: r = Z3_mk_bvlshr(z, A(0), A(1)); break;
    case Op::AShr: r = Z3_mk_bvashr(z, A(0), A(1)); break;
    case Op::And: if (e->w == 1) goto viaBool; r = Z3_mk_bvand(z, A(0), A(1)); break;
    case Op::Or: if (e->w == 1) goto viaBool; r = Z3_mk_bvor(z, A(0), A(1)); break;
    case Op::Xor: if (e->w == 1) goto viaBool; r = Z3_mk_bvxor(z, A(0), A(1)); break;
    case Op::Concat: r = Z3_mk_concat(z, A(0), A(1)); break;
    case Op::Extract: r = Z3_mk_extract(z, e->aux + e->w - 1, e->aux, A(0)); break;
    case Op::ZExt: r = Z3_mk_zero_ext(z, e->w - e->k[0]->w, A(0)); break;
    case Op::SExt: r = Z3_mk_sign_ext(z, e->w - e->k[0]->w, A(0)); break;
    case Op::Ite: r = Z3_mk_ite(z, toBool(e->k[0]), A(1), A(2)); break;
    case Op::FAdd: r = Z3_mk_fpa_to_ieee_bv(z, keep(Z3_mk_fpa_add(z, rne(), toFP(e->k[0]), toFP(e->k[1])))); break;
    case Op::FSub: r = Z3_mk_fpa_to_ieee_bv(z, keep(Z3_mk_fpa_sub(z, rne(), toFP(e->k[0]), toFP(e->k[1])))); break;
    case Op::FMul: r = Z3_mk_fpa_to_ieee_bv(z, keep(Z3_mk_fpa_mul(z, rne(), toFP(e->k[0]), toFP(e->k[1])))); break;
    case Op::FDiv: r = Z3_mk_fpa_to_ieee_bv(z, keep(Z3_mk_fpa_div(z, rne(), toFP(e->k[0]), toFP(e->k[1])))); break;
    case Op::FPExt:
    case Op::FPTrunc: r = Z3_mk_fpa_to_ieee_bv(z, keep(Z3_mk_fpa_to_fp_float(z, rne(), toFP(e->k[0]), fps(e->w)))); break;
    case Op::SIToFP: usesFP = true; r = Z3_mk_fpa_to_ieee_bv(z, keep(Z3_mk_fpa_to_fp_signed(z, rne(), A(0), fps(e->w)))); break;
    case Op::UIToFP: usesFP = true; r = Z3_mk_fpa_to_ieee_bv(z, keep(Z3_mk_fpa_to_fp_unsigned(z, rne(), A(0), fps(e->w)))); break;
    case Op::FPToSI: r = Z3_mk_fpa_to_sbv(z, keep(Z3_mk_fpa_rtz(z)), toFP(e->k[0]), e->w); break;
    case Op::FPToUI: r = Z3_mk_fpa_to_ubv(z, keep(Z3_mk_fpa_rtz(z)), toFP(e->k[0]), e->w); break;
    default:
    viaBool:
      r = Z3_mk_ite(z, toBool(e), keep(Z3_mk_unsigned_int(z, 1, bv(1))), keep(Z3_mk_unsigned_int(z, 0, bv(1))));
    }
    keep(r);
    if (bvMemo.size() <= e->id)
      bvMemo.resize(e->id * 2 + 64);
    bvMemo[e->id] = r;
    return r;
  }
  Z3_ast rne() { return keep(Z3_mk_fpa_rne(z)); }

  // collects symbols
  void symsOf(E e, std::unordered_set<E>& seen, std::vector<E>& out) {
    if (e->op == Op::Const || !seen.insert(e).second)
      return;
    if (e->op == Op::Sym) {
      out.push_back(e);
      return;
    }
    for (auto* p : e->k)
      if (p)
        symsOf(p, seen, out);
  }

  // Is pc && cond satisfiable? fills model
  Sat check(const std::vector<E>& pc, E cond, Model* out) {
    if (cond && Ctx::isC(cond) && !cond->c)
      return Sat::Unsat;
    auto t0 = std::chrono::steady_clock::now();
    bool fpBefore = usesFP;
    for (auto* p : pc) toBool(p);
    if (cond) toBool(cond);
    if (usesFP != fpBefore) mk();
    size_t common = 0;
    while (common < stack.size() && common < pc.size() && stack[common] == pc[common])
      common++;
    if (stack.size() > common) {
      Z3_solver_pop(z, s, (unsigned)(stack.size() - common));
      stack.resize(common);
    }
    for (size_t i = common; i < pc.size(); ++i) {
      Z3_solver_push(z, s);
      Z3_solver_assert(z, s, toBool(pc[i]));
      stack.push_back(pc[i]);
    }
    Z3_lbool r;
    if (cond) {
      Z3_ast a = toBool(cond);
      // assumption literals have to be constants: use push/pop
      Z3_solver_push(z, s);
      Z3_solver_assert(z, s, a);
      r = Z3_solver_check(z, s);
      if (r == Z3_L_TRUE && out)
        getModel(*out);
      Z3_solver_pop(z, s, 1);
    } else {
      r = Z3_solver_check(z, s);
      if (r == Z3_L_TRUE && out)
        getModel(*out);
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    solverTime += dt;
    maxQuery = std::max(maxQuery, dt);
    queries++;
    if (r == Z3_L_TRUE && out) {
      // the model has to satisfy the constraints under the executor's own evaluation
      std::unordered_map<E, u128> memo;
      bool ok = !cond || evalE(cond, *out, memo);
      for (auto* p : pc)
        ok = ok && evalE(p, *out, memo);
      if (!ok) {
        fprintf(stderr, "model check failed\n");
        modelBad++;
        unknownN++;
        return Sat::Unknown;
      }
    }
    if (r == Z3_L_TRUE) {
      satN++;
      return Sat::Sat;
    }
    if (r == Z3_L_FALSE) {
      unsatN++;
      return Sat::Unsat;
    }
    unknownN++;
    return Sat::Unknown;
  }
  void getModel(Model& out) {
    out.clear();
    Z3_model m = Z3_solver_get_model(z, s);
    Z3_model_inc_ref(z, m);
    unsigned n = Z3_model_get_num_consts(z, m);
    for (unsigned i = 0; i < n; ++i) {
      Z3_func_decl d = Z3_model_get_const_decl(z, m, i);
      Z3_symbol sy = Z3_get_decl_name(z, d);
      if (Z3_get_symbol_kind(z, sy) != Z3_INT_SYMBOL)
        continue;
      Z3_ast v = Z3_model_get_const_interp(z, m, d);
      uint64_t val = 0;
      if (v && Z3_get_numeral_uint64(z, v, &val))
        out[(uint32_t)Z3_get_symbol_int(z, sy)] = val;
    }
    Z3_model_dec_ref(z, m);
  }
};
}  // namespace vp
