// Models of intrinsics, harness primitives and external functions (included into engine.cpp, namespace vp)

R Engine::doIntrinsic(State& s, const CInst& ci, std::vector<Val>& a) {
  auto setR = [&](const Val& v, int i = 0) { s.F().regs[ci.dst + i] = v; };
  auto next = [&] {
    if (ci.opc == Instruction::Invoke)
      jump(s, ci.tgt[0]);
    else
      s.F().ip++;
    return R::Jumped;
  };
  switch ((Intrinsic::ID)ci.imm) {
  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start:
  case Intrinsic::lifetime_end: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::assume:
  case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::sideeffect:
  case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::vaend:
    if (ci.nd)
      setR({});
    return next();
  case Intrinsic::stacksave: setR({0, nullptr}); return next();
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::annotation:
  case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation:
  case Intrinsic::threadlocal_address:
    setR(a[0]);
    return next();
  case Intrinsic::is_constant: setR({0, nullptr}); return next();
  case Intrinsic::objectsize: setR(mk(~(u128)0, ci.w)); return next();
  case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap:
    violate(s, "trap", "llvm.trap executed");
    return R::Kill;
  case Intrinsic::eh_typeid_for: setR({(a[0].c >> OBJ_SHIFT) & 0x7fffffff, nullptr}); return next();
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
    uint64_t n, d, sr;
    if (!concretize(s, a[2], ci.argw[2], n))
      return R::Kill;
    if (!n)
      return next();
    if (!address(s, a[0], d, n) || !address(s, a[1], sr, n))
      return R::Kill;
    if (!copyMem(s, d, sr, n, &ci))
      return R::Kill;
    return next();
  }
  case Intrinsic::memset: case Intrinsic::memset_inline: {
    uint64_t n, d;
    if (!concretize(s, a[2], ci.argw[2], n))
      return R::Kill;
    if (!n)
      return next();
    if (!address(s, a[0], d, n))
      return R::Kill;
    if (!access(s, d, n, true, &ci))
      return R::Kill;
    Obj* o = s.mem.getW(d >> OBJ_SHIFT);
    uint32_t off = d & ((1u << OBJ_SHIFT) - 1);
    for (uint64_t i = 0; i < n; ++i)
      setByte(o, off + i, toE(a[1], 8));
    return next();
  }
  case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
    static const std::map<unsigned, unsigned> pr{{Intrinsic::umin, CmpInst::ICMP_ULT}, {Intrinsic::umax, CmpInst::ICMP_UGT},
                                                 {Intrinsic::smin, CmpInst::ICMP_SLT}, {Intrinsic::smax, CmpInst::ICMP_SGT}};
    int n = ci.nd;
    for (int i = 0; i < n; ++i) {
      Val c = icmp(pr.at(ci.imm), a[i], a[n + i], ci.w);
      setR(c.e ? fromE(cx.ite(c.e, toE(a[i], ci.w), toE(a[n + i], ci.w))) : (c.c ? a[i] : a[n + i]), i);
    }
    return next();
  }
  case Intrinsic::abs: {
    Val z{0, nullptr};
    bool bad;
    Val n = binop(s, Instruction::Sub, z, a[0], ci.w, bad);
    Val c = icmp(CmpInst::ICMP_SLT, a[0], z, ci.w);
    setR(c.e ? fromE(cx.ite(c.e, toE(n, ci.w), toE(a[0], ci.w))) : (c.c ? n : a[0]));
    return next();
  }
  case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow:
  case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
    uint32_t w = ci.argw[0];
    E x = toE(a[0], w), y = toE(a[1], w);
    bool sg = ci.imm == Intrinsic::sadd_with_overflow || ci.imm == Intrinsic::ssub_with_overflow || ci.imm == Intrinsic::smul_with_overflow;
    Op op = (ci.imm == Intrinsic::uadd_with_overflow || ci.imm == Intrinsic::sadd_with_overflow) ? Op::Add
        : (ci.imm == Intrinsic::usub_with_overflow || ci.imm == Intrinsic::ssub_with_overflow)   ? Op::Sub
                                                                                                 : Op::Mul;
    uint32_t W = std::min(128u, w * 2);
    E r = cx.bin(op, x, y);
    E wide = cx.bin(op, sg ? cx.sext(x, W) : cx.zext(x, W), sg ? cx.sext(y, W) : cx.zext(y, W));
    E back = sg ? cx.sext(r, W) : cx.zext(r, W);
    setR(fromE(r), 0);
    setR(fromE(cx.bnot(cx.bin(Op::Eq, wide, back))), 1);
    return next();
  }
  case Intrinsic::usub_sat: {
    Val c = icmp(CmpInst::ICMP_ULT, a[0], a[1], ci.w);
    bool bad;
    Val d = binop(s, Instruction::Sub, a[0], a[1], ci.w, bad);
    setR(c.e ? fromE(cx.ite(c.e, cx.cst(0, ci.w), toE(d, ci.w))) : (c.c ? Val{} : d));
    return next();
  }
  case Intrinsic::uadd_sat: {
    bool bad;
    Val d = binop(s, Instruction::Add, a[0], a[1], ci.w, bad);
    Val c = icmp(CmpInst::ICMP_ULT, d, a[0], ci.w);
    setR(fromE(cx.ite(toE(c, 1), cx.cst(~(u128)0, ci.w), toE(d, ci.w))));
    return next();
  }
  case Intrinsic::bswap: {
    E x = toE(a[0], ci.w), r = nullptr;
    for (uint32_t i = 0; i < ci.w / 8; ++i) {
      E b = cx.extract(x, 8 * i, 8);
      r = r ? cx.concat(r, b) : b;
    }
    setR(fromE(r));
    return next();
  }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    uint32_t w = ci.w;
    if (a[2].e) {
      unsupported(s, "funnel shift by a symbolic amount");
      return R::Kill;
    }
    uint32_t k = a[2].c % w;
    E x = toE(a[0], w), y = toE(a[1], w);
    E cat = cx.concat(x, y);
    if (ci.imm == Intrinsic::fshl)
      setR(fromE(cx.extract(cat, w - k, w)));
    else
      setR(fromE(cx.extract(cat, k, w)));
    return next();
  }
  case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
    uint32_t w = ci.w;
    E x = toE(a[0], w), r = nullptr;
    if (ci.imm == Intrinsic::ctpop) {
      r = cx.cst(0, w);
      for (uint32_t i = 0; i < w; ++i)
        r = cx.bin(Op::Add, r, cx.zext(cx.extract(x, i, 1), w));
    } else {
      r = cx.cst(w, w);
      for (uint32_t j = 0; j < w; ++j) {
        uint32_t i = ci.imm == Intrinsic::ctlz ? j : w - 1 - j;
        uint32_t v = ci.imm == Intrinsic::ctlz ? w - 1 - i : i;
        r = cx.ite(cx.extract(x, i, 1), cx.cst(v, w), r);
      }
    }
    setR(fromE(r));
    return next();
  }
  case Intrinsic::fabs: {
    setR(fromE(cx.bin(Op::And, toE(a[0], ci.w), cx.cst(maskW(ci.w - 1), ci.w))));
    return next();
  }
  case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::rint: case Intrinsic::trunc: case Intrinsic::sqrt: {
    if (a[0].e) {
      unsupported(s, "symbolic floating point rounding");
      return R::Kill;
    }
    double d;
    memcpy(&d, &a[0].c, 8);
    if (ci.w == 32) {
      float fl;
      uint32_t x = (uint32_t)a[0].c;
      memcpy(&fl, &x, 4);
      d = fl;
    }
    d = ci.imm == Intrinsic::ceil ? ceil(d) : ci.imm == Intrinsic::floor ? floor(d) : ci.imm == Intrinsic::sqrt ? sqrt(d) : ci.imm == Intrinsic::trunc ? ::trunc(d) : rint(d);
    uint64_t r;
    if (ci.w == 32) {
      float fl = (float)d;
      uint32_t x;
      memcpy(&x, &fl, 4);
      r = x;
    } else
      memcpy(&r, &d, 8);
    setR({r, nullptr});
    return next();
  }
  case Intrinsic::fmuladd: {
    bool bad;
    Val m = binop(s, Instruction::FMul, a[0], a[1], ci.w, bad);
    setR(binop(s, Instruction::FAdd, m, a[2], ci.w, bad));
    return next();
  }
  case Intrinsic::load_relative: {
    uint64_t base = a[0].c, off = a[1].c;
    const Obj* o = access(s, base + off, 4, false, &ci);
    if (!o)
      return R::Kill;
    int32_t d;
    memcpy(&d, &o->data[(base + off) & ((1u << OBJ_SHIFT) - 1)], 4);
    setR({base + (int64_t)d, nullptr});
    return next();
  }
  default:
    unsupported(s, "intrinsic " + ci.callee->name);
    return R::Kill;
  }
}

#define H(fn) static R fn(Engine& en, State& s, const CInst& ci, std::vector<Val>& a, Val& r)
#define CONC(i, v)                                                  \
  uint64_t v;                                                       \
  if (!en.concretize(s, a[i], ci.argw[i], v))                       \
    return R::Kill;

// ---------------------------------------------------------------- harness primitives
H(h_sym) {
  CONC(0, addr) CONC(1, n) CONC(2, nm)
  std::string name;
  en.readCStr(s, nm, name);
  int k = s.symCount[name]++;
  (void)k;
  if (!en.access(s, addr, n, true, &ci))
    return R::Kill;
  SymGroup g{name, (uint32_t)en.cx.syms.size(), (uint32_t)n};
  Obj* o = s.mem.getW(addr >> OBJ_SHIFT);
  uint32_t off = addr & ((1u << OBJ_SHIFT) - 1);
  for (uint32_t i = 0; i < n; ++i)
    en.setByte(o, off + i, en.cx.newSym(name, i));
  s.groups.push_back(g);
  return R::Next;
}
H(h_assume) {
  Val c = a[0];
  if (!c.e) {
    if (!(c.c & 1)) {
      en.infeasible++;
      return R::Kill;
    }
    return R::Next;
  }
  E e = c.e->w == 1 ? c.e : en.cx.bnot(en.cx.bin(Op::Eq, c.e, en.cx.cst(0, c.e->w)));
  Model m;
  int d = en.decide(s, e, m);
  if (d == 0) {
    en.infeasible++;
    return R::Kill;
  }
  if (d == 2) {
    if (!en.evalBool(s, e))
      en.setModel(s, std::move(m));
    en.addPC(s, e);
  }
  return R::Next;
}
H(h_assert) {
  en.asserts++;
  CONC(1, mp)
  std::string msg;
  en.readCStr(s, mp, msg);
  Val c = a[0];
  if (!c.e) {
    if (!(c.c & 0xff)) {
      en.violate(s, "assert", msg);
      return R::Kill;
    }
    return R::Next;
  }
  en.assertsSymbolic++;
  E e = c.e->w == 1 ? c.e : en.cx.bnot(en.cx.bin(Op::Eq, c.e, en.cx.cst(0, c.e->w)));
  Model m;
  int d = en.decide(s, e, m);
  if (d == 1)
    return R::Next;
  if (d == 0) {
    en.violate(s, "assert", msg, nullptr, e->uninit);
    return R::Kill;
  }
  if (en.evalBool(s, e)) {
    en.violate(s, "assert", msg, &m, e->uninit);
  } else {
    en.violate(s, "assert", msg, nullptr, e->uninit);
    en.setModel(s, std::move(m));
  }
  en.addPC(s, e);
  return R::Next;
}
H(h_cover) {
  CONC(0, p)
  std::string n;
  en.readCStr(s, p, n);
  s.covers.insert(n);
  return R::Next;
}
H(h_concrete) {
  uint64_t v;
  if (!en.concretize(s, a[0], 64, v))
    return R::Kill;
  r = {v, nullptr};
  return R::Next;
}
H(h_trace) {
  CONC(0, p)
  std::string n;
  en.readCStr(s, p, n);
  s.trace.push_back({n, a[1]});
  return R::Next;
}
H(h_is_symbolic) {
  r = {a[0].e ? 1ull : 0ull, nullptr};
  return R::Next;
}
H(h_engine) {
  r = {1, nullptr};
  return R::Next;
}
H(h_heap_count) {
  uint64_t n = 0;
  for (auto& ch : s.mem.chunks)
    if (ch)
      for (auto& o : ch->o)
        if (o && o->alive && o->kind == KHeap)
          n++;
  r = {n, nullptr};
  return R::Next;
}
H(h_objsize) {
  CONC(0, p)
  auto* o = s.mem.get(p >> OBJ_SHIFT);
  r = {o && o->alive ? o->size : 0, nullptr};
  return R::Next;
}
H(h_valid) {  // is [p, p+n) inside one live object?
  CONC(0, p) CONC(1, n)
  auto* o = s.mem.get(p >> OBJ_SHIFT);
  r = {(uint64_t)(o && o->alive && (p & ((1u << OBJ_SHIFT) - 1)) + n <= o->size), nullptr};
  return R::Next;
}
H(h_spawn) {
  CONC(0, fn) CONC(1, arg)
  if (fn < FUNC_BASE || (fn - FUNC_BASE) / 16 >= en.funcByIdx.size())
    return R::Kill;
  CFunc* f = en.funcByIdx[(fn - FUNC_BASE) / 16];
  int cur = s.cur, id = (int)s.threads.size();
  s.threads.emplace_back();
  auto& T = s.threads[id];
  T.vc = s.threads[cur].vc;
  T.vc.resize(id + 1);
  T.vc[id] = 1;
  en.tick(s);
  s.cur = id;
  en.pushFrame(s, f, {Val{arg, nullptr}}, nullptr);
  s.cur = cur;
  r = {(uint64_t)id, nullptr};
  return R::Next;
}
H(h_join_all) {
  bool all = true;
  for (size_t i = 0; i < s.threads.size(); ++i)
    if ((int)i != s.cur && !s.threads[i].done)
      all = false;
  if (!all)
    return en.block(s, 4, 0);
  s.T().atSync = false;
  for (size_t i = 0; i < s.threads.size(); ++i)
    vcJoin(s.T().vc, s.threads[i].vc);
  return R::Next;
}
H(h_yield) {
  en.schedPoint(s, "yield");
  return R::Next;
}
H(h_tid) {
  r = {(uint64_t)s.cur, nullptr};
  return R::Next;
}
H(h_fail_kill) {
  en.violate(s, "abort", "program aborts (" + ci.callee->name + ")");
  return R::Kill;
}
H(h_assert_fail) {
  std::string m;
  if (!a[0].e)
    en.readCStr(s, a[0].c, m);
  en.violate(s, "abort", "assert() in the code under test failed: " + m);
  return R::Kill;
}
H(h_end_path) {
  for (auto& t : s.threads)
    t.done = true;
  return R::Kill;
}
H(h_unwind) {  // vp_raise(obj, typeinfo)
  uint64_t obj = a[0].c, ti = a[1].c;
  return en.unwind(s, obj, ti, true);
}
H(h_resume_c) {  // _Unwind_Resume
  uint64_t obj = a[0].c;
  uint64_t ti = en.rdPtr(s, obj - 64);
  en.popFrame(s);
  return en.unwind(s, obj, ti, false);
}

// ---------------------------------------------------------------- memory
static R doAlloc(Engine& en, State& s, const CInst& ci, uint64_t n, Val& r, bool viaNew, bool arr, bool zero) {
  if (n >= (1u << OBJ_SHIFT)) {
    // larger than anything the harness can legitimately need: allocation failure
    if (viaNew) {
      en.violate(s, "memory", "allocation of " + std::to_string(n) + " bytes requested");
      return R::Kill;
    }
    r = {0, nullptr};
    return R::Next;
  }
  uint64_t p = en.allocObj(s, (uint32_t)n, KHeap, &ci, "", zero);
  Obj* o = s.mem.getW(p >> OBJ_SHIFT);
  o->viaNew = viaNew;
  o->array = arr;
  r = {p, nullptr};
  return R::Next;
}
H(h_malloc) { CONC(0, n) return doAlloc(en, s, ci, n, r, false, false, false); }
H(h_calloc) { CONC(0, n) CONC(1, m) return doAlloc(en, s, ci, n * m, r, false, false, true); }
H(h_new) { CONC(0, n) return doAlloc(en, s, ci, n, r, true, false, false); }
H(h_newarr) { CONC(0, n) return doAlloc(en, s, ci, n, r, true, true, false); }
static R doFree(Engine& en, State& s, const CInst& ci, uint64_t p, bool viaNew, bool arr) {
  if (!p)
    return R::Next;
  const Obj* o = s.mem.get(p >> OBJ_SHIFT);
  if (!o || (p & ((1u << OBJ_SHIFT) - 1)) || o->kind != KHeap) {
    en.violate(s, "memory", "free of a pointer that was not allocated (" + en.descObj(o) + ")");
    return R::Kill;
  }
  if (!o->alive) {
    en.violate(s, "memory", "double free of " + en.descObj(o));
    return R::Kill;
  }
  if (o->viaNew != viaNew || o->array != arr) {
    en.violate(s, "memory", "mismatched allocation/deallocation function for " + en.descObj(o));
    return R::Kill;
  }
  if (s.multi())
    en.race(s, p, std::min<uint64_t>(o->size, 64), true, &ci);
  en.killObj(s, p);
  return R::Next;
}
H(h_free) { CONC(0, p) return doFree(en, s, ci, p, false, false); }
H(h_delete) { CONC(0, p) return doFree(en, s, ci, p, true, false); }
H(h_delarr) { CONC(0, p) return doFree(en, s, ci, p, true, true); }
H(h_memcpy) {
  CONC(2, n)
  r = a[0];
  if (!n)
    return R::Next;
  uint64_t d, sr;
  if (!en.address(s, a[0], d, n) || !en.address(s, a[1], sr, n))
    return R::Kill;
  if (!en.copyMem(s, d, sr, n, &ci))
    return R::Kill;
  return R::Next;
}
H(h_memset) {
  CONC(2, n)
  r = a[0];
  if (!n)
    return R::Next;
  uint64_t d;
  if (!en.address(s, a[0], d, n))
    return R::Kill;
  if (!en.access(s, d, n, true, &ci))
    return R::Kill;
  Obj* o = s.mem.getW(d >> OBJ_SHIFT);
  uint32_t off = d & ((1u << OBJ_SHIFT) - 1);
  for (uint64_t i = 0; i < n; ++i)
    en.setByte(o, off + i, en.cx.extract(en.toE(a[1], 32), 0, 8));
  return R::Next;
}
// memcmp/bcmp/strncmp-like comparison as one expression
static R cmpBytes(Engine& en, State& s, const CInst& ci, std::vector<Val>& x, std::vector<Val>& y, Val& r) {
  E res = en.cx.cst(0, 32);
  for (size_t i = x.size(); i-- > 0;) {
    if (!x[i].e && !y[i].e) {
      if (x[i].c != y[i].c)
        res = en.cx.cst(x[i].c < y[i].c ? (u128)0xffffffff : 1, 32);
      continue;
    }
    E p = en.toE(x[i], 8), q = en.toE(y[i], 8);
    res = en.cx.ite(en.cx.bin(Op::Eq, p, q), res, en.cx.ite(en.cx.bin(Op::Ult, p, q), en.cx.cst(0xffffffff, 32), en.cx.cst(1, 32)));
  }
  r = en.fromE(res);
  return R::Next;
}
H(h_memcmp) {
  CONC(2, n)
  if (!n) {
    r = {};
    return R::Next;
  }
  uint64_t p, q;
  if (!en.address(s, a[0], p, n) || !en.address(s, a[1], q, n))
    return R::Kill;
  std::vector<Val> x, y;
  if (!en.readBytes(s, p, n, x, &ci) || !en.readBytes(s, q, n, y, &ci))
    return R::Kill;
  return cmpBytes(en, s, ci, x, y, r);
}
H(h_bcmp) {
  CONC(2, n)
  if (!n) {
    r = {};
    return R::Next;
  }
  uint64_t p, q;
  if (!en.address(s, a[0], p, n) || !en.address(s, a[1], q, n))
    return R::Kill;
  std::vector<Val> x, y;
  if (!en.readBytes(s, p, n, x, &ci) || !en.readBytes(s, q, n, y, &ci))
    return R::Kill;
  E eq = en.cx.cst(1, 1);
  for (size_t i = 0; i < n; ++i)
    eq = en.cx.bin(Op::And, eq, en.cx.bin(Op::Eq, en.toE(x[i], 8), en.toE(y[i], 8)));
  r = en.fromE(en.cx.zext(en.cx.bnot(eq), 32));
  return R::Next;
}
H(h_strlen) {
  CONC(0, p)
  uint64_t n = 0;
  for (;; ++n) {
    std::vector<Val> b;
    if (!en.readBytes(s, p + n, 1, b, &ci))
      return R::Kill;
    if (!b[0].e) {
      if (!b[0].c)
        break;
      continue;
    }
    E z = en.cx.bin(Op::Eq, b[0].e, en.cx.cst(0, 8));
    Model m;
    int d = en.decide(s, z, m);
    if (d == 1)
      break;
    if (d == 0)
      continue;
    bool zn = en.evalBool(s, z);
    State* c = en.clone(s);
    en.addPC(*c, zn ? en.cx.bnot(z) : z);
    en.setModel(*c, std::move(m));
    en.work.push_back(c);  // re-executes strlen
    en.addPC(s, zn ? z : en.cx.bnot(z));
    if (zn)
      break;
  }
  r = {n, nullptr};
  return R::Next;
}

// ---------------------------------------------------------------- locks
// pthread_mutex_t::__kind: 1 is a recursive mutex
static bool isRecursive(Engine& en, State& s, uint64_t m) {
  std::vector<Val> k;
  return en.readBytes(s, m + 16, 1, k, nullptr) && !k[0].e && (k[0].c & 3) == 1;
}
H(h_mutex_lock) {
  CONC(0, m)
  if (!en.schedPoint(s, "lock"))
    return R::Retry;
  if (!en.access(s, m, 1, false, nullptr))
    return R::Kill;
  const bool rec = isRecursive(en, s, m);
  auto& l = s.locks[m];
  if (rec && l.owner == s.cur) {
    ++l.count;
    r = {};
    return R::Next;
  }
  if (l.owner == s.cur || (std::find(l.readers.begin(), l.readers.end(), s.cur) != l.readers.end())) {
    en.violate(s, "deadlock", "thread locks a mutex it already holds");
    return R::Kill;
  }
  if (l.owner >= 0 || !l.readers.empty())
    return en.block(s, 3, m);
  l.owner = s.cur;
  vcJoin(s.T().vc, l.vc);
  r = {};
  return R::Next;
}
H(h_mutex_trylock) {
  CONC(0, m)
  if (!en.schedPoint(s, "trylock"))
    return R::Retry;
  const bool rec = isRecursive(en, s, m);
  auto& l = s.locks[m];
  if (rec && l.owner == s.cur) {
    ++l.count;
    r = {};
    return R::Next;
  }
  if (l.owner >= 0 || !l.readers.empty()) {
    r = {16, nullptr};
    return R::Next;
  }
  l.owner = s.cur;
  vcJoin(s.T().vc, l.vc);
  r = {};
  return R::Next;
}
static std::map<uint64_t, VC>& readerVC(State& s) { return s.atomics; }
H(h_mutex_unlock) {
  CONC(0, m)
  if (!en.access(s, m, 1, false, nullptr))
    return R::Kill;
  auto& l = s.locks[m];
  if (l.owner == s.cur && l.count > 0) {
    --l.count;
  } else if (l.owner == s.cur) {
    l.owner = -1;
    l.vc = s.T().vc;
    // writers also synchronise with later readers and writers
    auto& rv = readerVC(s)[m ^ (1ull << 63)];
    vcJoin(rv, s.T().vc);
    if (s.multi())
      en.tick(s);
  } else {
    auto it = std::find(l.readers.begin(), l.readers.end(), s.cur);
    if (it == l.readers.end()) {
      en.violate(s, "lock-misuse", "unlock of a mutex that is not held");
      return R::Kill;
    }
    l.readers.erase(it);
    auto& rv = readerVC(s)[m ^ (1ull << 63)];
    vcJoin(rv, s.T().vc);
    if (s.multi())
      en.tick(s);
  }
  r = {};
  return R::Next;
}
H(h_rd_lock) {
  CONC(0, m)
  if (!en.schedPoint(s, "rdlock"))
    return R::Retry;
  auto& l = s.locks[m];
  if (l.owner == s.cur) {
    en.violate(s, "deadlock", "thread read-locks a lock it holds for writing");
    return R::Kill;
  }
  if (l.owner >= 0)
    return en.block(s, 2, m);
  l.readers.push_back(s.cur);
  vcJoin(s.T().vc, l.vc);
  r = {};
  return R::Next;
}
H(h_wr_lock) {
  CONC(0, m)
  if (!en.schedPoint(s, "wrlock"))
    return R::Retry;
  auto& l = s.locks[m];
  if (l.owner == s.cur || std::find(l.readers.begin(), l.readers.end(), s.cur) != l.readers.end()) {
    en.violate(s, "deadlock", "thread write-locks a lock it already holds");
    return R::Kill;
  }
  if (l.owner >= 0 || !l.readers.empty())
    return en.block(s, 3, m);
  l.owner = s.cur;
  vcJoin(s.T().vc, l.vc);
  vcJoin(s.T().vc, readerVC(s)[m ^ (1ull << 63)]);
  r = {};
  return R::Next;
}
H(h_guard_acquire) {
  CONC(0, g)
  const Obj* o = en.access(s, g, 8, false, nullptr);
  if (!o)
    return R::Kill;
  uint32_t off = g & ((1u << OBJ_SHIFT) - 1);
  if (!en.schedPoint(s, "static init"))
    return R::Retry;
  if (o->data[off]) {
    vcJoin(s.T().vc, s.atomics[g]);
    r = {0, nullptr};
    return R::Next;
  }
  if (s.guards[g] == 1) {
    if (s.multi())
      return en.block(s, 5, g);
    en.violate(s, "deadlock", "recursive initialisation of a function-local static");
    return R::Kill;
  }
  s.guards[g] = 1;
  r = {1, nullptr};
  return R::Next;
}
H(h_guard_release) {
  CONC(0, g)
  Obj* o = s.mem.getW(g >> OBJ_SHIFT);
  o->data[g & ((1u << OBJ_SHIFT) - 1)] = 1;
  s.guards[g] = 2;
  s.atomics[g] = s.T().vc;
  if (s.multi())
    en.tick(s);
  return R::Next;
}
H(h_guard_abort) {
  CONC(0, g)
  s.guards[g] = 0;
  return R::Next;
}
H(h_dbg) {
  std::string n;
  if (!a[0].e)
    en.readCStr(s, a[0].c, n);
  if (en.verbose)
    fprintf(stderr, "[dbg] %s %s%llu\n", n.c_str(), a.size() > 1 && a[1].e ? "(sym) " : "",
            a.size() > 1 ? (unsigned long long)(a[1].e ? (uint64_t)evalE(a[1].e, s.model->m, s.model->memo) : a[1].c) : 0ull);
  return R::Next;
}
H(h_next_prime) {  // handled concretely: number of buckets for n elements
  static const uint64_t primes[] = {2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043};
  CONC(0, n)
  for (uint64_t p : primes)
    if (p >= n) {
      r = {p, nullptr};
      return R::Next;
    }
  r = {85229, nullptr};
  return R::Next;
}

static struct Reg {
  Reg() {
    auto& t = handlerTable();
    t["vp_symbolic"] = h_sym;
    t["vp_assume"] = h_assume;
    t["vp_assert_msg"] = h_assert;
    t["vp_cover"] = h_cover;
    t["vp_concrete"] = h_concrete;
    t["vp_trace"] = h_trace;
    t["vp_is_symbolic"] = h_is_symbolic;
    t["vp_in_engine"] = h_engine;
    t["vp_heap_count"] = h_heap_count;
    t["vp_objsize"] = h_objsize;
    t["vp_valid"] = h_valid;
    t["vp_spawn"] = h_spawn;
    t["vp_join_all"] = h_join_all;
    t["vp_yield"] = h_yield;
    t["vp_tid"] = h_tid;
    t["vp_end_path"] = h_end_path;
    t["vp_raise"] = h_unwind;
    t["vp_dbg"] = h_dbg;
    t["vp_next_prime"] = h_next_prime;
    t["_Unwind_Resume"] = h_resume_c;
    for (auto n : {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "exit", "_exit", "__cxa_deleted_virtual", "__stack_chk_fail"})
      t[n] = h_fail_kill;
    t["__assert_fail"] = h_assert_fail;
    t["malloc"] = h_malloc;
    t["calloc"] = h_calloc;
    t["free"] = h_free;
    for (auto n : {"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t"})
      t[n] = h_new;
    for (auto n : {"_Znam", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_t"})
      t[n] = h_newarr;
    for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"})
      t[n] = h_delete;
    for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"})
      t[n] = h_delarr;
    t["memcpy"] = h_memcpy;
    t["memmove"] = h_memcpy;
    t["memset"] = h_memset;
    t["memcmp"] = h_memcmp;
    t["bcmp"] = h_bcmp;
    t["strlen"] = h_strlen;
    t["pthread_mutex_lock"] = h_mutex_lock;
    t["pthread_mutex_trylock"] = h_mutex_trylock;
    t["pthread_mutex_unlock"] = h_mutex_unlock;
    t["pthread_rwlock_rdlock"] = h_rd_lock;
    t["pthread_rwlock_wrlock"] = h_wr_lock;
    t["pthread_rwlock_unlock"] = h_mutex_unlock;
    t["__cxa_guard_acquire"] = h_guard_acquire;
    t["__cxa_guard_release"] = h_guard_release;
    t["__cxa_guard_abort"] = h_guard_abort;
    for (auto n : {"__cxa_atexit", "__cxa_thread_atexit", "atexit", "pthread_mutex_init", "pthread_mutex_destroy",
                   "pthread_rwlock_init", "pthread_rwlock_destroy", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev",
                   "puts", "putchar", "fflush", "pthread_cond_destroy"})
      t[n] = ret0;
  }
} reg;

// Text output is not a subject of the harnesses that use this: formatted output operators do nothing.
Handler Engine::prefixHandler(const std::string& n) {
  if (n.rfind("_ZNSo", 0) == 0 || n.rfind("_ZStls", 0) == 0 || n.rfind("_ZSt16__ostream_insert", 0) == 0 ||
      n.rfind("_ZSt4endl", 0) == 0 || n.rfind("_ZSt5flush", 0) == 0)
    return retArg0;
  if (n == "_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate")
    return ret0;
  return nullptr;
}
