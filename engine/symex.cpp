// symex: symbolic execution of LLVM bitcode (rustc fat-LTO output) with Z3.
//
// Every branch, switch, symbolic address and size is decided by asking whether each
// side is satisfiable together with the path condition; both feasible sides are
// explored.  "Feasible" verdicts come with a concrete witness assignment (checked
// against the whole path condition); "infeasible" verdicts come from Z3 (or from a
// literal already asserted on the path).  Assertions are discharged by Z3 the same way.
#include "expr.h"
#include <z3.h>
#include <llvm/ADT/APInt.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <unistd.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <algorithm>
#include <chrono>
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include <cstdio>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>

using namespace llvm;
static Exprs X;

static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ values
struct V;
typedef std::shared_ptr<std::vector<V>> Agg;
struct V {
  u128 c = 0;
  Expr *e = nullptr;
  Agg agg;
  V() {}
  V(u128 c_) : c(c_) {}
  V(Expr *x) { if (Exprs::isC(x)) c = x->c; else e = x; }
  bool sym() const { return e != nullptr; }
};
static inline Expr *ex(const V &v, unsigned w) { return v.e ? v.e : X.cst(v.c, w); }

struct TyInfo {
  enum { Scalar, AggK, VecK, VoidK } kind;
  unsigned w = 0;      // scalar width
  unsigned bytes = 0;  // store size
  std::vector<std::pair<u64, TyInfo *>> elems; // offset, type
};

// ------------------------------------------------------------------ memory
struct Obj {
  u32 refs = 1; u32 size; bool ro = false;
  u8 *data; Expr **sym = nullptr; u32 nsym = 0;
  Obj(u32 sz) : size(sz) { data = (u8 *)calloc(1, sz ? sz : 1); }
  Obj(const Obj &o) : size(o.size), ro(o.ro) {
    data = (u8 *)malloc(size ? size : 1); memcpy(data, o.data, size);
    if (o.nsym) { sym = (Expr **)malloc(size * sizeof(Expr *)); memcpy(sym, o.sym, size * sizeof(Expr *)); nsym = o.nsym; }
  }
  ~Obj() { free(data); free(sym); }
  void put(u32 i, u8 b) { data[i] = b; if (nsym && sym[i]) { sym[i] = nullptr; nsym--; } }
  void putE(u32 i, Expr *e) {
    if (Exprs::isC(e)) { put(i, (u8)e->c); return; }
    if (!sym) sym = (Expr **)calloc(size, sizeof(Expr *));
    else if (!nsym) memset(sym, 0, size * sizeof(Expr *));
    if (!sym[i]) nsym++;
    sym[i] = e;
  }
  Expr *byteE(u32 i) const { return (nsym && sym[i]) ? sym[i] : X.cst(data[i], 8); }
  bool isSym(u32 i) const { return nsym && sym[i]; }
};
static void rderef(Obj *o) { if (o && --o->refs == 0) delete o; }
struct Chunk {
  u32 refs = 1; Obj *o[128];
  Chunk() { memset(o, 0, sizeof o); }
  Chunk(const Chunk &c) { memcpy(o, c.o, sizeof o); for (auto p : o) if (p) p->refs++; }
  ~Chunk() { for (auto p : o) rderef(p); }
};
struct Mem {
  std::vector<Chunk *> ch;
  std::vector<u32> freeList;
  u32 next = 1;
  Mem() {}
  Mem(const Mem &m) : ch(m.ch), freeList(m.freeList), next(m.next) { for (auto c : ch) c->refs++; }
  ~Mem() { for (auto c : ch) if (--c->refs == 0) delete c; }
  Obj *get(u32 i) { u32 k = i >> 7; if (k >= ch.size()) return nullptr; return ch[k]->o[i & 127]; }
  Chunk *wchunk(u32 k) {
    while (k >= ch.size()) ch.push_back(new Chunk());
    Chunk *c = ch[k];
    if (c->refs > 1) { c->refs--; c = ch[k] = new Chunk(*c); }
    return c;
  }
  Obj *getW(u32 i) {
    Chunk *c = wchunk(i >> 7); Obj *&o = c->o[i & 127];
    if (o && o->refs > 1) { o->refs--; o = new Obj(*o); o->refs = 1; }
    return o;
  }
  u32 alloc(u64 size) {
    if (size > (1u << 28)) throw Unsupported("huge allocation");
    u32 i; if (!freeList.empty()) { i = freeList.back(); freeList.pop_back(); } else i = next++;
    Chunk *c = wchunk(i >> 7); c->o[i & 127] = new Obj((u32)size);
    return i;
  }
  void release(u32 i) {
    Chunk *c = wchunk(i >> 7); rderef(c->o[i & 127]); c->o[i & 127] = nullptr; freeList.push_back(i);
  }
};
static const u64 FN_BASE = 0x40000000ull;

// ------------------------------------------------------------------ decoded code
struct Opnd { int reg = -1; V cv; };
struct Fn;
struct PhiD { u32 dst; std::vector<std::pair<u32, Opnd>> in; };
struct BlockD { u32 start; std::vector<PhiD> phis; };
struct GepIdx { Opnd o; u64 scale; unsigned w; };
struct DInst {
  unsigned opc; unsigned w = 0; int dst = -1; unsigned pred = 0;
  TyInfo *ty = nullptr, *ty2 = nullptr;
  std::vector<Opnd> ops;
  std::vector<GepIdx> gep; u64 imm = 0;
  std::vector<u32> idx; // successor blocks / aggregate path / shuffle mask / phi
  std::vector<V> cases;
  Fn *callee = nullptr; unsigned iid = 0; const Instruction *I = nullptr;
  bool isTerm = false;
};
enum Builtin { B_NONE, B_PANIC, B_NOOP, B_BYTE, B_ASSUME, B_ASSERT, B_COVER, B_CONC, B_LOG, B_STR, B_ACTIVE, B_MALLOC, B_CALLOC,
  B_REALLOC, B_FREE, B_MEMALIGN, B_MEMCMP, B_BCMP, B_STRLEN, B_SYSCALL, B_WRITE, B_ABORT, B_ZERO, B_KEY, B_ERRNO, B_DONE, B_EXPECT_PANIC, B_MEMCHR, B_FAIL };
struct Fn {
  Function *F; std::string name; bool decl; int builtin = B_NONE; u32 index;
  bool decoded = false, entered = false; u32 nregs = 0;
  std::vector<DInst> code; std::vector<BlockD> blocks;
};

struct Frame {
  u32 refs = 1; Fn *fn; u32 ip; u32 block = 0; std::vector<V> regs; std::vector<u32> allocas;
};
struct PC { Expr *e; std::shared_ptr<PC> parent; u32 depth; };
typedef std::shared_ptr<PC> PCR;
typedef std::shared_ptr<std::vector<u8>> Model;

struct State {
  std::vector<Frame *> stack; Mem mem; PCR pc; Model model; u32 nvars = 0;
  VarMask bound; std::vector<u32> known; u64 instrs = 0; u32 forks = 0;
  std::vector<V> log; std::string note; bool expectPanic = false; std::vector<u32> covers; u32 errnoObj = 0;
  State() {}
  State(const State &s) : stack(s.stack), mem(s.mem), pc(s.pc), model(s.model), nvars(s.nvars), bound(s.bound), known(s.known),
    instrs(s.instrs), forks(s.forks), log(s.log), note(s.note), expectPanic(s.expectPanic), covers(s.covers), errnoObj(s.errnoObj) { for (auto f : stack) f->refs++; }
  ~State() { for (auto f : stack) if (--f->refs == 0) delete f; }
  Frame &top() {
    Frame *f = stack.back();
    if (f->refs > 1) { f->refs--; f = new Frame(*f); f->refs = 1; stack.back() = f; }
    return *f;
  }
};
struct EndPath { std::string kind, msg; };
struct Infeasible {};

// ------------------------------------------------------------------ engine
struct Violation { std::string kind, msg, note; std::vector<u8> bytes; std::string where; };
struct Sample { std::vector<u8> bytes; u64 loghash; u64 nlog; std::string note; };

struct Engine {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout *DL;
  std::unordered_map<const Function *, Fn *> fns; std::vector<Fn *> fnv;
  std::unordered_map<const GlobalValue *, u64> gaddr;
  std::unordered_map<Type *, TyInfo *> tys;
  // limits
  u64 maxInstr = 30000000; u32 maxDepth = 3000; double maxTime = 600; u32 maxViol = 3; u64 maxPaths = 100000000; bool forkSelect = false; // decide selects of positions by forking, as branches are
  u64 seed = 1; u32 nsamples = 6; u64 conc_limit = 70000;
  bool traceOn = getenv("SYMEX_TRACE") != nullptr;
  std::string dumpPrefix; u32 dumpEvery = 0; u32 ndumped = 0;
  // stats
  u64 paths = 0, pathsOk = 0, pathsAssumed = 0, pathsPanicOk = 0, forksTotal = 0, instrTotal = 0, z3q = 0, z3sat = 0, z3unsat = 0, quickSat = 0, knownHits = 0, boundHits = 0, assertsConc = 0, assertsSym = 0, branchesSym = 0;
  double z3time = 0; std::map<u32, u64> covers; u32 maxDepthSeen = 0, maxVarsSeen = 0; u64 maxPathInstr = 0;
  std::vector<Violation> viols; std::vector<Sample> samples; std::string incomplete;
  std::vector<State *> work;
  u64 rng;
  double t0;

  // ---------- z3
  Z3_context z; Z3_solver sol; std::vector<Z3_ast> memo; Z3_sort bv8;
  void z3init() {
    Z3_config c = Z3_mk_config(); z = Z3_mk_context(c); Z3_del_config(c);
    Z3_set_error_handler(z, [](Z3_context cc, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(cc, e)); exit(2); });
    sol = Z3_mk_simple_solver(z); Z3_solver_inc_ref(z, sol);
    Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p);
    Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), 120000);
    Z3_solver_set_params(z, sol, p);
  }
  Z3_ast num(u128 v, unsigned w) {
    Z3_sort s = Z3_mk_bv_sort(z, w);
    if (w <= 64) return Z3_mk_unsigned_int64(z, (u64)v, s);
    Z3_ast h = Z3_mk_unsigned_int64(z, (u64)(v >> 64), Z3_mk_bv_sort(z, w - 64));
    Z3_ast l = Z3_mk_unsigned_int64(z, (u64)v, Z3_mk_bv_sort(z, 64));
    return Z3_mk_concat(z, h, l);
  }
  Z3_ast asBv(Expr *e) { Z3_ast t = tr(e); if (e->w == 1) return Z3_mk_ite(z, t, num(1, 1), num(0, 1)); return t; }
  Z3_ast tr(Expr *e) {
    if (memo.size() <= e->id) memo.resize(X.nextId + 1024, nullptr);
    if (memo[e->id]) return memo[e->id];
    Z3_ast r;
    bool b1 = e->w == 1;
    switch (e->op) {
    case O_CONST: r = b1 ? (e->c ? Z3_mk_true(z) : Z3_mk_false(z)) : num(e->c, e->w); break;
    case O_VAR: { std::string n = "b" + std::to_string((u64)e->c); r = Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), Z3_mk_bv_sort(z, 8)); break; }
    case O_ADD: r = Z3_mk_bvadd(z, tr(e->a), tr(e->b)); break;
    case O_SUB: r = Z3_mk_bvsub(z, tr(e->a), tr(e->b)); break;
    case O_MUL: r = Z3_mk_bvmul(z, tr(e->a), tr(e->b)); break;
    case O_UDIV: r = Z3_mk_bvudiv(z, tr(e->a), tr(e->b)); break;
    case O_SDIV: r = Z3_mk_bvsdiv(z, tr(e->a), tr(e->b)); break;
    case O_UREM: r = Z3_mk_bvurem(z, tr(e->a), tr(e->b)); break;
    case O_SREM: r = Z3_mk_bvsrem(z, tr(e->a), tr(e->b)); break;
    case O_AND: { if (b1) { Z3_ast t[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_and(z, 2, t); } else r = Z3_mk_bvand(z, tr(e->a), tr(e->b)); break; }
    case O_OR: { if (b1) { Z3_ast t[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_or(z, 2, t); } else r = Z3_mk_bvor(z, tr(e->a), tr(e->b)); break; }
    case O_XOR: r = b1 ? (Exprs::isNot(e) ? Z3_mk_not(z, tr(e->a)) : Z3_mk_xor(z, tr(e->a), tr(e->b))) : Z3_mk_bvxor(z, tr(e->a), tr(e->b)); break;
    case O_SHL: r = Z3_mk_bvshl(z, tr(e->a), tr(e->b)); break;
    case O_LSHR: r = Z3_mk_bvlshr(z, tr(e->a), tr(e->b)); break;
    case O_ASHR: r = Z3_mk_bvashr(z, tr(e->a), tr(e->b)); break;
    case O_EQ: r = Z3_mk_eq(z, tr(e->a), tr(e->b)); break;
    case O_ULT: r = Z3_mk_bvult(z, asBv(e->a), asBv(e->b)); break;
    case O_SLT: r = Z3_mk_bvslt(z, asBv(e->a), asBv(e->b)); break;
    case O_ITE: r = Z3_mk_ite(z, tr(e->a), tr(e->b), tr(e->d)); break;
    case O_ZEXT: r = e->a->w == 1 ? Z3_mk_ite(z, tr(e->a), num(1, e->w), num(0, e->w)) : Z3_mk_zero_ext(z, e->w - e->a->w, tr(e->a)); break;
    case O_SEXT: r = e->a->w == 1 ? Z3_mk_ite(z, tr(e->a), num(~(u128)0 & maskw(e->w), e->w), num(0, e->w)) : Z3_mk_sign_ext(z, e->w - e->a->w, tr(e->a)); break;
    case O_EXTRACT: { Z3_ast t = Z3_mk_extract(z, (unsigned)e->c + e->w - 1, (unsigned)e->c, tr(e->a)); r = b1 ? Z3_mk_eq(z, t, num(1, 1)) : t; break; }
    case O_CONCAT: r = Z3_mk_concat(z, asBv(e->a), asBv(e->b)); break;
    default: throw Unsupported("tr");
    }
    if (memo.size() <= e->id) memo.resize(X.nextId + 1024, nullptr);
    memo[e->id] = r;
    return r;
  }
  // is pc /\ cond satisfiable?  fills model when it is.
  // (only the constraints that share variables with cond, transitively, are asserted: the
  // rest of the path condition is satisfied by the state's own model and is independent)
  struct CacheEnt { bool sat; std::vector<std::pair<u32, u8>> vals; };
  std::map<std::vector<u32>, CacheEnt> qcache; u64 cacheHits = 0;
  bool solve(State &s, Expr *cond, Model &out) {
    double t = now();
    VarMask m = cond->vars; std::vector<Expr *> slice, rest;
    for (PC *p = s.pc.get(); p; p = p->parent.get()) rest.push_back(p->e);
    for (bool ch = true; ch;) {
      ch = false; size_t k = 0;
      for (size_t i = 0; i < rest.size(); i++) {
        if (rest[i]->vars.intersects(m)) { if (!rest[i]->vars.subsetOf(m)) { m.orWith(rest[i]->vars); ch = true; } slice.push_back(rest[i]); }
        else rest[k++] = rest[i];
      }
      rest.resize(k);
    }
    std::vector<u32> key; for (auto e : slice) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.push_back(cond->id);
    auto it = qcache.find(key);
    if (it == qcache.end()) {
      CacheEnt ce;
      Z3_solver_push(z, sol);
      for (auto e : slice) Z3_solver_assert(z, sol, tr(e));
      Z3_solver_assert(z, sol, tr(cond));
      Z3_lbool r = Z3_solver_check(z, sol); z3q++;
      if (r == Z3_L_UNDEF) throw Unsupported("solver returned unknown");
      if (dumpEvery && z3q % dumpEvery == 0 && ndumped < 40) dumpQuery(s, cond, r == Z3_L_TRUE);
      ce.sat = r == Z3_L_TRUE;
      if (ce.sat) {
        z3sat++;
        Z3_model mo = Z3_solver_get_model(z, sol); Z3_model_inc_ref(z, mo);
        for (u32 i = 0; i < s.nvars; i++) {
          if (!m.has(i)) continue;
          Z3_ast v; u64 u = 0; if (Z3_model_eval(z, mo, tr(X.var(i)), true, &v)) Z3_get_numeral_uint64(z, v, &u);
          ce.vals.push_back({i, (u8)u});
        }
        Z3_model_dec_ref(z, mo);
      } else z3unsat++;
      Z3_solver_pop(z, sol, 1);
      it = qcache.emplace(std::move(key), std::move(ce)).first;
    } else cacheHits++;
    if (it->second.sat) {
      out = std::make_shared<std::vector<u8>>(*s.model); out->resize(s.nvars, 0);
      for (auto &v : it->second.vals) (*out)[v.first] = v.second;
      // a witness must satisfy the path condition under our own evaluator
      X.epoch++;
      bool ok = X.ev(cond, out->data(), out->size()) == 1;
      for (PC *p = s.pc.get(); p && ok; p = p->parent.get()) ok = X.ev(p->e, out->data(), out->size()) == 1;
      if (!ok) throw Unsupported("solver witness does not evaluate (encoding error)");
    }
    z3time += now() - t;
    return it->second.sat;
  }
  void dumpQuery(State &s, Expr *cond, bool sat) {
    if (dumpPrefix.empty()) return;
    std::string fn = dumpPrefix + std::to_string(ndumped++) + (sat ? ".sat.smt2" : ".unsat.smt2");
    FILE *f = fopen(fn.c_str(), "w"); if (!f) return;
    fprintf(f, "(set-logic QF_BV)\n");
    for (u32 i = 0; i < s.nvars; i++) fprintf(f, "(declare-const b%u (_ BitVec 8))\n", i);
    for (PC *p = s.pc.get(); p; p = p->parent.get()) fprintf(f, "(assert %s)\n", Z3_ast_to_string(z, tr(p->e)));
    fprintf(f, "(assert %s)\n(check-sat)\n", Z3_ast_to_string(z, tr(cond)));
    fclose(f);
  }
  bool quick(State &s, Expr *cond, Model &out) {
    int nv = cond->vars.count(); if (nv > 4) return false;
    std::vector<u8> m(*s.model); m.resize(s.nvars, 0);
    for (int v = 0, seen = 0; v < (int)s.nvars && seen < nv; v++) {
      if (!cond->vars.has(v)) continue;
      seen++;
      if (s.bound.has(v)) continue;
      std::vector<Expr *> rel; bool rl = false;
      u8 old = m[v];
      for (int x = 0; x < 256; x++) {
        m[v] = (u8)x; X.epoch++;
        if (X.ev(cond, m.data(), m.size()) != 1) continue;
        if (!rl) { rl = true; for (PC *p = s.pc.get(); p; p = p->parent.get()) if (p->e->vars.has(v)) rel.push_back(p->e); }
        bool ok = true;
        for (auto r : rel) if (X.ev(r, m.data(), m.size()) != 1) { ok = false; break; }
        if (ok) { out = std::make_shared<std::vector<u8>>(m); quickSat++; return true; }
      }
      m[v] = old;
    }
    return false;
  }
  bool feasible(State &s, Expr *cond, Model &out) { return quick(s, cond, out) || solve(s, cond, out); }
  static bool inKnown(State &s, Expr *e) { return std::binary_search(s.known.begin(), s.known.end(), e->id); }
  static void addKnown(State &s, Expr *e) { auto it = std::lower_bound(s.known.begin(), s.known.end(), e->id); if (it == s.known.end() || *it != e->id) s.known.insert(it, e->id); }
  void constrain(State &s, Expr *e) {
    if (Exprs::isC(e)) return;
    if (e->op == O_AND && e->w == 1) { constrain(s, e->a); constrain(s, e->b); addKnown(s, e); return; }
    if (Exprs::isNot(e) && e->a->op == O_OR) { constrain(s, X.notE(e->a->a)); constrain(s, X.notE(e->a->b)); addKnown(s, e); return; }
    if (inKnown(s, e)) return;
    auto n = std::make_shared<PC>(); n->e = e; n->parent = s.pc; n->depth = s.pc ? s.pc->depth + 1 : 1; s.pc = n;
    addKnown(s, e);
    if (e->op == O_EQ && e->a->op == O_VAR && Exprs::isC(e->b)) s.bound.set((int)e->a->c);
  }
  u128 evalM(State &s, Expr *e) { return X.eval(e, s.model->data(), s.model->size()); }
  // decide a symbolic boolean; returns -1 if both feasible (and then other's model in om, model side in mv)
  int decide(State &s, Expr *c, bool &mv, Model &om) {
    branchesSym++;
    if (inKnown(s, c)) { knownHits++; return 1; }
    Expr *n = X.notE(c);
    if (inKnown(s, n)) { knownHits++; return 0; }
    mv = evalM(s, c) & 1;
    if (c->vars.subsetOf(s.bound)) { boundHits++; return mv; }
    Expr *other = mv ? n : c;
    if (!feasible(s, other, om)) { addKnown(s, mv ? c : n); return mv; }
    return -1;
  }
  State *cloneFor(State &s, Expr *cond, Model &m) {
    State *c = new State(s); c->model = m; constrain(*c, cond); c->forks++; forksTotal++; return c;
  }
  // decide with re-execution of the current instruction in the clone
  bool decideReexec(State &s, Expr *c) {
    bool mv; Model om; int r = decide(s, c, mv, om);
    if (r >= 0) return r;
    work.push_back(cloneFor(s, mv ? X.notE(c) : c, om));
    constrain(s, mv ? c : X.notE(c)); s.forks++;
    return mv;
  }
  u128 conc(State &s, const V &v, unsigned w) {
    if (!v.e) return v.c;
    u128 val = evalM(s, v.e);
    if (v.e->vars.subsetOf(s.bound)) return val;
    Expr *eqe = X.eq(v.e, X.cst(val, w));
    if (Exprs::isC(eqe)) return val;
    if (decideReexec(s, eqe)) return val;
    throw Unsupported("conc"); // unreachable: the model satisfies eqe
  }

  // ---------- setup
  TyInfo *tyinfo(Type *t) {
    auto it = tys.find(t); if (it != tys.end()) return it->second;
    TyInfo *r = new TyInfo();
    if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) { r->kind = TyInfo::VoidK; tys[t] = r; return r; }
    r->bytes = DL->getTypeStoreSize(t);
    if (auto *st = dyn_cast<StructType>(t)) {
      r->kind = TyInfo::AggK; auto *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) r->elems.push_back({sl->getElementOffset(i), tyinfo(st->getElementType(i))});
    } else if (auto *at = dyn_cast<ArrayType>(t)) {
      r->kind = TyInfo::AggK; u64 es = DL->getTypeAllocSize(at->getElementType());
      for (unsigned i = 0; i < at->getNumElements(); i++) r->elems.push_back({es * i, tyinfo(at->getElementType())});
    } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
      r->kind = TyInfo::VecK; TyInfo *et = tyinfo(vt->getElementType());
      for (unsigned i = 0; i < vt->getNumElements(); i++) r->elems.push_back({(u64)et->bytes * i, et});
      r->w = et->w;
    } else { r->kind = TyInfo::Scalar; r->w = t->isPointerTy() ? 64 : t->getPrimitiveSizeInBits(); if (t->isIntegerTy()) r->w = t->getIntegerBitWidth(); if (r->w > 128) { r->w = 0; } }
    tys[t] = r; return r;
  }
  V zeroOf(TyInfo *t) {
    if (t->kind == TyInfo::Scalar || t->kind == TyInfo::VoidK) return V();
    V v; v.agg = std::make_shared<std::vector<V>>(); for (auto &e : t->elems) v.agg->push_back(zeroOf(e.second)); return v;
  }
  static u128 ap(const APInt &a) {
    if (a.getBitWidth() > 128) throw Unsupported("wide constant");
    u128 r = a.getRawData()[0]; if (a.getNumWords() > 1) r |= (u128)a.getRawData()[1] << 64; return r;
  }
  Fn *fnOf(const Function *F) { auto it = fns.find(F); return it == fns.end() ? nullptr : it->second; }
  V constant(const Constant *C) {
    Type *t = C->getType();
    if (auto *ci = dyn_cast<ConstantInt>(C)) return V(ap(ci->getValue()));
    if (auto *cf = dyn_cast<ConstantFP>(C)) return V(ap(cf->getValueAPF().bitcastToAPInt()));
    if (isa<ConstantPointerNull>(C)) return V();
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return zeroOf(tyinfo(t));
    if (auto *gv = dyn_cast<GlobalValue>(C)) {
      if (auto *ga = dyn_cast<GlobalAlias>(gv)) return constant(ga->getAliasee());
      auto it = gaddr.find(gv); if (it == gaddr.end()) throw Unsupported("global address"); return V((u128)it->second);
    }
    if (auto *cs = dyn_cast<ConstantAggregate>(C)) {
      V v; v.agg = std::make_shared<std::vector<V>>(); for (auto &o : cs->operands()) v.agg->push_back(constant(cast<Constant>(o))); return v;
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(C)) {
      V v; v.agg = std::make_shared<std::vector<V>>(); for (unsigned i = 0; i < cd->getNumElements(); i++) v.agg->push_back(constant(cd->getElementAsConstant(i))); return v;
    }
    if (auto *ce = dyn_cast<ConstantExpr>(C)) {
      unsigned w = tyinfo(t)->w;
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0); auto *g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported("const gep");
        return V((u128)(u64)(constant(ce->getOperand(0)).c + off.getZExtValue()));
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: return V(constant(ce->getOperand(0)).c & maskw(w));
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constant(ce->getOperand(0));
      case Instruction::Add: return V((constant(ce->getOperand(0)).c + constant(ce->getOperand(1)).c) & maskw(w));
      case Instruction::Sub: return V((constant(ce->getOperand(0)).c - constant(ce->getOperand(1)).c) & maskw(w));
      case Instruction::ICmp: {
        u128 a = constant(ce->getOperand(0)).c, b = constant(ce->getOperand(1)).c;
        switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return V((u128)(a == b)); case CmpInst::ICMP_NE: return V((u128)(a != b)); case CmpInst::ICMP_ULT: return V((u128)(a < b)); default: throw Unsupported("const icmp"); }
      }
      default: throw Unsupported(std::string("constant expr ") + ce->getOpcodeName());
      }
    }
    throw Unsupported("constant");
  }
  void storeRaw(Obj *o, u64 off, TyInfo *t, const V &v) {
    if (t->kind == TyInfo::Scalar) { for (unsigned i = 0; i < t->bytes; i++) o->data[off + i] = (u8)(v.c >> (8 * i)); return; }
    if (!v.agg) return;
    for (size_t i = 0; i < t->elems.size(); i++) storeRaw(o, off + t->elems[i].first, t->elems[i].second, (*v.agg)[i]);
  }
  static bool has(const std::string &s, const char *p) { return s.find(p) != std::string::npos; }
  int builtinFor(const std::string &n, bool decl) {
    if (n == "sym_byte") return B_BYTE; if (n == "sym_assume") return B_ASSUME; if (n == "sym_assert") return B_ASSERT;
    if (n == "sym_cover") return B_COVER; if (n == "sym_conc") return B_CONC; if (n == "sym_log") return B_LOG; if (n == "sym_note") return B_STR;
    if (n == "sym_active") return B_ACTIVE; if (n == "sym_done") return B_DONE; if (n == "sym_expect_panic") return B_EXPECT_PANIC; if (n == "sym_fail") return B_FAIL;
    if (has(n, "_ZN4core9panicking") || has(n, "_ZN3std9panicking11begin_panic") || has(n, "_ZN3std9panicking20rust_panic_with_hook") || has(n, "_ZN3std9panicking19begin_panic_handler") ||
        n == "rust_begin_unwind" || has(n, "_ZN3std9panicking14payload_as_str") || has(n, "16slice_error_fail17h") || has(n, "19slice_error_fail_rt17h") || has(n, "_ZN4core6option13expect_failed17h") || has(n, "_ZN4core6option13unwrap_failed17h") ||
        has(n, "_ZN4core6result13unwrap_failed17h") || has(n, "capacity_overflow17h") || has(n, "handle_alloc_error17h") || has(n, "_fail17h") || has(n, "_fail_rt17h") || has(n, "_fail8do_panic"))
      return B_PANIC;
    if (has(n, "_ZN3std2io5stdio6_print17h") || has(n, "_ZN3std2io5stdio7_eprint17h")) return B_NOOP;
    if (!decl) return B_NONE;
    if (n == "malloc") return B_MALLOC; if (n == "calloc") return B_CALLOC; if (n == "realloc") return B_REALLOC; if (n == "free") return B_FREE;
    if (n == "posix_memalign") return B_MEMALIGN; if (n == "memcmp") return B_MEMCMP; if (n == "bcmp") return B_BCMP; if (n == "strlen") return B_STRLEN; if (n == "memchr") return B_MEMCHR;
    if (n == "syscall") return B_SYSCALL; if (n == "write") return B_WRITE; if (n == "abort") return B_ABORT;
    if (n == "pthread_key_create") return B_KEY;
    if (n == "getenv" || n == "pthread_self" || n == "pthread_key_delete" || n == "pthread_setspecific" || n == "pthread_getspecific") return B_ZERO;
    if (n == "__errno_location") return B_ERRNO;
    return B_NONE;
  }
  std::unique_ptr<Mem> initMem;
  void load(const std::string &path) {
    SMDiagnostic err; M = parseIRFile(path, err, ctx);
    if (!M) { fprintf(stderr, "cannot read %s: %s\n", path.c_str(), err.getMessage().str().c_str()); exit(2); }
    DL = &M->getDataLayout();
    for (auto &F : *M) {
      Fn *f = new Fn(); f->F = &F; f->name = F.getName().str(); f->decl = F.isDeclaration(); f->index = fnv.size(); f->builtin = builtinFor(f->name, f->decl);
      fnv.push_back(f); fns[&F] = f;
      gaddr[&F] = (f->decl && F.hasExternalWeakLinkage()) ? 0 : (FN_BASE + f->index) << 32;
    }
    initMem.reset(new Mem());
    for (auto &G : M->globals()) {
      u64 sz = DL->getTypeAllocSize(G.getValueType());
      if (G.isDeclaration() && sz < 8) sz = 8;
      if (G.isDeclaration() && G.hasExternalWeakLinkage()) { gaddr[&G] = 0; continue; }
      gaddr[&G] = (u64)initMem->alloc(sz) << 32;
    }
    for (auto &G : M->globals()) {
      if (G.isDeclaration() || G.getName().startswith("llvm.")) continue;
      Obj *o = initMem->get(gaddr[&G] >> 32);
      try { storeRaw(o, 0, tyinfo(G.getValueType()), constant(G.getInitializer())); } catch (Unsupported &u) { }
      o->ro = G.isConstant();
    }
  }
  // ---------- decode
  void decode(Fn *f) {
    f->decoded = true;
    std::unordered_map<const Value *, int> reg; std::unordered_map<const BasicBlock *, u32> bid;
    u32 n = 0; for (auto &a : f->F->args()) reg[&a] = n++;
    u32 b = 0; for (auto &B : *f->F) { bid[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) reg[&I] = n++; }
    f->nregs = n;
    auto op = [&](const Value *v) { Opnd o; auto it = reg.find(v); if (it != reg.end()) o.reg = it->second; else if (auto *c = dyn_cast<Constant>(v)) o.cv = constant(c); else if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v)) {} else if (isa<InlineAsm>(v)) {} else throw Unsupported("operand"); return o; };
    for (auto &B : *f->F) {
      BlockD bd; bd.start = f->code.size();
      for (auto &P : B.phis()) { PhiD p; p.dst = reg[&P]; for (unsigned i = 0; i < P.getNumIncomingValues(); i++) p.in.push_back({bid[P.getIncomingBlock(i)], op(P.getIncomingValue(i))}); bd.phis.push_back(std::move(p)); }
      f->blocks.push_back(std::move(bd));
      for (auto &I : B) {
        if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
        DInst d; d.opc = I.getOpcode(); d.I = &I;
        if (!I.getType()->isVoidTy()) { d.dst = reg[&I]; d.ty = tyinfo(I.getType()); d.w = d.ty->w; }
        switch (I.getOpcode()) {
        case Instruction::Br: { auto &br = cast<BranchInst>(I); if (br.isConditional()) d.ops.push_back(op(br.getCondition())); for (unsigned i = 0; i < br.getNumSuccessors(); i++) d.idx.push_back(bid[br.getSuccessor(i)]); break; }
        case Instruction::Switch: { auto &sw = cast<SwitchInst>(I); d.ops.push_back(op(sw.getCondition())); d.w = sw.getCondition()->getType()->getIntegerBitWidth(); d.idx.push_back(bid[sw.getDefaultDest()]); for (auto &c : sw.cases()) { d.cases.push_back(V(ap(c.getCaseValue()->getValue()))); d.idx.push_back(bid[c.getCaseSuccessor()]); } break; }
        case Instruction::GetElementPtr: {
          auto &g = cast<GetElementPtrInst>(I); if (g.getType()->isVectorTy()) throw Unsupported("vector gep");
          d.ops.push_back(op(g.getPointerOperand()));
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            const Value *ix = it.getOperand();
            if (auto *st = it.getStructTypeOrNull()) { d.imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
            u64 sc = DL->getTypeAllocSize(it.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(ix)) { d.imm += sc * (u64)ci->getSExtValue(); continue; }
            d.gep.push_back({op(ix), sc, ix->getType()->getIntegerBitWidth()});
          }
          break;
        }
        case Instruction::ICmp: { d.pred = cast<ICmpInst>(I).getPredicate(); d.ty2 = tyinfo(I.getOperand(0)->getType()); d.w = d.ty2->w; d.ops = {op(I.getOperand(0)), op(I.getOperand(1))}; break; }
        case Instruction::Alloca: { auto &a = cast<AllocaInst>(I); d.imm = DL->getTypeAllocSize(a.getAllocatedType()); d.ops.push_back(op(a.getArraySize())); break; }
        case Instruction::Load: d.ops.push_back(op(I.getOperand(0))); break;
        case Instruction::Store: d.ops = {op(I.getOperand(0)), op(I.getOperand(1))}; d.ty2 = tyinfo(I.getOperand(0)->getType()); break;
        case Instruction::Call: case Instruction::Invoke: {
          auto &cb = cast<CallBase>(I);
          if (cb.isInlineAsm()) { d.iid = ~0u; break; }
          for (auto &a : cb.args()) { if (isa<MetadataAsValue>(a.get())) d.ops.push_back(Opnd()); else d.ops.push_back(op(a.get())); }
          if (auto *inv = dyn_cast<InvokeInst>(&I)) d.idx.push_back(bid[inv->getNormalDest()]);
          const Value *cv = cb.getCalledOperand()->stripPointerCasts();
          if (auto *cf = dyn_cast<Function>(cv)) { d.callee = fnOf(cf); d.iid = cf->getIntrinsicID(); if (d.iid && cb.arg_size()) d.ty2 = tyinfo(cb.getArgOperand(0)->getType()); }
          else d.ops.push_back(op(cb.getCalledOperand()));
          break;
        }
        case Instruction::ExtractValue: d.ops.push_back(op(I.getOperand(0))); for (auto i : cast<ExtractValueInst>(I).indices()) d.idx.push_back(i); break;
        case Instruction::InsertValue: d.ops = {op(I.getOperand(0)), op(I.getOperand(1))}; for (auto i : cast<InsertValueInst>(I).indices()) d.idx.push_back(i); break;
        case Instruction::ShuffleVector: { d.ops = {op(I.getOperand(0)), op(I.getOperand(1))}; for (int i : cast<ShuffleVectorInst>(I).getShuffleMask()) d.idx.push_back((u32)i); break; }
        case Instruction::AtomicRMW: d.pred = cast<AtomicRMWInst>(I).getOperation(); d.ops = {op(I.getOperand(0)), op(I.getOperand(1))}; break;
        default: for (auto &o : I.operands()) { if (isa<BasicBlock>(o.get())) continue; d.ops.push_back(op(o.get())); }
          if (I.getNumOperands()) d.ty2 = tyinfo(I.getOperand(0)->getType());
        }
        f->code.push_back(std::move(d));
      }
    }
  }
  // ---------- memory access
  Obj *objAt(State &s, u64 addr, u64 n, bool write) {
    u32 i = (u32)(addr >> 32); u64 off = addr & 0xffffffffu;
    Obj *o = (addr >> 32) < FN_BASE ? s.mem.get(i) : nullptr;
    if (!o) throw EndPath{"memory", "access to invalid address"};
    if (off + n > o->size) throw EndPath{"memory", "out-of-bounds access"};
    if (write) { if (o->ro) throw EndPath{"memory", "write to constant"}; if (o->refs > 1 || s.mem.ch[i >> 7]->refs > 1) o = s.mem.getW(i); }
    return o;
  }
  V loadScalar(Obj *o, u64 off, TyInfo *t) {
    unsigned n = t->bytes;
    if (o->nsym) {
      bool any = false; for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { any = true; break; }
      if (any) {
        Expr *acc = o->byteE(off);
        for (unsigned i = 1; i < n; i++) acc = X.concat(o->byteE(off + i), acc);
        if (t->w < 8 * n) acc = X.extract(acc, 0, t->w);
        return V(acc);
      }
    }
    u128 v = 0;
    switch (n) {
    case 1: v = o->data[off]; break;
    case 2: { uint16_t x; memcpy(&x, o->data + off, 2); v = x; break; }
    case 4: { u32 x; memcpy(&x, o->data + off, 4); v = x; break; }
    case 8: { u64 x; memcpy(&x, o->data + off, 8); v = x; break; }
    default: for (unsigned i = 0; i < n; i++) v |= (u128)o->data[off + i] << (8 * i);
    }
    if (t->w < 8 * n) v &= maskw(t->w);
    return V(v);
  }
  V loadT(Obj *o, u64 off, TyInfo *t) {
    if (t->kind == TyInfo::Scalar) { if (!t->w) throw Unsupported("wide load"); return loadScalar(o, off, t); }
    V v; v.agg = std::make_shared<std::vector<V>>(); v.agg->reserve(t->elems.size());
    for (auto &e : t->elems) v.agg->push_back(loadT(o, off + e.first, e.second));
    return v;
  }
  void storeT(Obj *o, u64 off, TyInfo *t, const V &v) {
    if (t->kind == TyInfo::Scalar) {
      unsigned n = t->bytes;
      if (v.e) {
        Expr *e = v.e; if (e->w < 8 * n) e = X.zext(e, 8 * n);
        for (unsigned i = 0; i < n; i++) o->putE(off + i, X.extract(e, 8 * i, 8));
      } else if (!o->nsym) {
        if (n == 8) { u64 x = (u64)v.c; memcpy(o->data + off, &x, 8); } else for (unsigned i = 0; i < n; i++) o->data[off + i] = (u8)(v.c >> (8 * i));
      } else for (unsigned i = 0; i < n; i++) o->put(off + i, (u8)(v.c >> (8 * i)));
      return;
    }
    if (!v.agg) { V z = zeroOf(t); storeT(o, off, t, z); return; }
    for (size_t i = 0; i < t->elems.size(); i++) storeT(o, off + t->elems[i].first, t->elems[i].second, (*v.agg)[i]);
  }
  V loadAt(State &s, const V &addr, TyInfo *t) {
    if (!addr.e) { Obj *o = objAt(s, (u64)addr.c, t->bytes, false); return loadT(o, (u64)addr.c & 0xffffffffu, t); }
    Expr *a = addr.e; u64 v = (u64)evalM(s, a);
    u32 idx = (u32)(v >> 32); Obj *o = (v >> 32) < FN_BASE ? s.mem.get(idx) : nullptr;
    if (!o || t->kind != TyInfo::Scalar || o->size > 4096 || o->size < t->bytes) { u64 c = (u64)conc(s, addr, 64); return loadAt(s, V((u128)c), t); }
    Expr *off = X.bin(O_SUB, a, X.cst((u128)idx << 32, 64));
    Expr *in = X.ult(off, X.cst(o->size - t->bytes + 1, 64));
    if (!Exprs::isC(in)) decideReexec(s, in);
    else if (!in->c) throw EndPath{"memory", "out-of-bounds access"};
    if (!inKnown(s, in) && !(evalM(s, in) & 1)) throw EndPath{"memory", "out-of-bounds symbolic access"};
    // stride
    unsigned k = 0; u64 rem = 0;
    for (unsigned kk = 4; kk >= 1; kk--) { Expr *lo = X.extract(off, 0, kk); if (Exprs::isC(lo)) { k = kk; rem = (u64)lo->c; break; } }
    std::vector<std::pair<u64, Expr *>> ent; // start offset, value
    u64 step = 1ull << k;
    for (u64 p = rem; p + t->bytes <= o->size; p += step) {
      V x = loadT(o, p, t); Expr *e = ex(x, t->w);
      if (ent.empty() || ent.back().second != e) ent.push_back({p, e});
    }
    struct R { static Expr *tree(std::vector<std::pair<u64, Expr *>> &v, size_t lo, size_t hi, Expr *off) { if (hi - lo == 1) return v[lo].second; size_t m = (lo + hi) / 2; return X.ite(X.ult(off, X.cst(v[m].first, 64)), tree(v, lo, m, off), tree(v, m, hi, off)); } };
    return V(R::tree(ent, 0, ent.size(), off));
  }
  void storeAt(State &s, const V &addr, TyInfo *t, const V &v) {
    u64 a = (u64)conc(s, addr, 64); Obj *o = objAt(s, a, t->bytes, true); storeT(o, a & 0xffffffffu, t, v);
  }
  void memCopy(State &s, u64 dst, u64 src, u64 n) {
    if (!n) return;
    Obj *so = objAt(s, src, n, false); so->refs++; // keep alive across COW
    Obj *d; try { d = objAt(s, dst, n, true); } catch (...) { rderef(so); throw; }
    u64 doff = dst & 0xffffffffu, soff = src & 0xffffffffu;
    if (!so->nsym && !d->nsym) memmove(d->data + doff, so->data + soff, n);
    else {
      std::vector<Expr *> tmp(n); std::vector<u8> tb(n);
      for (u64 i = 0; i < n; i++) { tmp[i] = so->isSym(soff + i) ? so->sym[soff + i] : nullptr; tb[i] = so->data[soff + i]; }
      for (u64 i = 0; i < n; i++) if (tmp[i]) d->putE(doff + i, tmp[i]); else d->put(doff + i, tb[i]);
    }
    rderef(so);
  }
  // ---------- control
  void enter(State &s, Fn *f, std::vector<V> &&args) {
    if (f->decl) throw Unsupported("call to external function " + f->name);
    if (!f->decoded) decode(f);
    f->entered = true;
    if (s.stack.size() >= maxDepth) throw EndPath{"diverge", "recursion depth limit"};
    Frame *fr = new Frame(); fr->fn = f; fr->ip = 0; fr->regs = std::move(args); fr->regs.resize(f->nregs); s.stack.push_back(fr);
    if (s.stack.size() > maxDepthSeen) maxDepthSeen = s.stack.size();
  }
  void edge(State &s, Frame &fr, u32 to) {
    BlockD &b = fr.fn->blocks[to];
    if (!b.phis.empty()) {
      if (b.phis.size() == 1) { auto &p = b.phis[0]; for (auto &in : p.in) if (in.first == fr.block) { V v = get(fr, in.second); fr.regs[p.dst] = std::move(v); break; } }
      else {
        std::vector<V> tmp; tmp.reserve(b.phis.size());
        for (auto &p : b.phis) { for (auto &in : p.in) if (in.first == fr.block) { tmp.push_back(get(fr, in.second)); break; } }
        for (size_t i = 0; i < tmp.size(); i++) fr.regs[b.phis[i].dst] = std::move(tmp[i]);
      }
    }
    fr.block = to; fr.ip = b.start;
  }
  static inline const V &get(Frame &fr, const Opnd &o) { return o.reg >= 0 ? fr.regs[o.reg] : o.cv; }
  V cmp(unsigned pred, const V &a, const V &b, unsigned w) {
    if (!a.e && !b.e) {
      u128 x = a.c, y = b.c; bool r;
      switch (pred) {
      case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_SLT: r = sx(x, w) < sx(y, w); break; case CmpInst::ICMP_SLE: r = sx(x, w) <= sx(y, w); break; case CmpInst::ICMP_SGT: r = sx(x, w) > sx(y, w); break; case CmpInst::ICMP_SGE: r = sx(x, w) >= sx(y, w); break;
      default: throw Unsupported("icmp");
      }
      return V((u128)r);
    }
    Expr *x = ex(a, w), *y = ex(b, w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return V(X.eq(x, y)); case CmpInst::ICMP_NE: return V(X.notE(X.eq(x, y)));
    case CmpInst::ICMP_ULT: return V(X.ult(x, y)); case CmpInst::ICMP_ULE: return V(X.ule(x, y)); case CmpInst::ICMP_UGT: return V(X.ult(y, x)); case CmpInst::ICMP_UGE: return V(X.ule(y, x));
    case CmpInst::ICMP_SLT: return V(X.slt(x, y)); case CmpInst::ICMP_SLE: return V(X.sle(x, y)); case CmpInst::ICMP_SGT: return V(X.slt(y, x)); case CmpInst::ICMP_SGE: return V(X.sle(y, x));
    default: throw Unsupported("icmp");
    }
  }
  V arith(Op op, const V &a, const V &b, unsigned w) {
    if (!a.e && !b.e) return V(Exprs::fold(op, w, a.c, b.c));
    return V(X.bin(op, ex(a, w), ex(b, w)));
  }
  template <class F> V lift2(TyInfo *t, const V &a, const V &b, F f) {
    if (t->kind != TyInfo::VecK) return f(a, b);
    V r; r.agg = std::make_shared<std::vector<V>>();
    for (size_t i = 0; i < t->elems.size(); i++) r.agg->push_back(f((*a.agg)[i], (*b.agg)[i]));
    return r;
  }
  // flatten vector/scalar to bits (LE) and back, for bitcast
  V bitcast(const V &v, TyInfo *from, TyInfo *to) {
    if (from->kind == TyInfo::Scalar && to->kind == TyInfo::Scalar) return v;
    if (from->kind == TyInfo::VecK && to->kind == TyInfo::VecK && from->elems.size() == to->elems.size()) return v;
    // pieces
    std::vector<V> bits; unsigned ew = from->kind == TyInfo::VecK ? from->w : from->w;
    unsigned total = from->kind == TyInfo::VecK ? ew * from->elems.size() : ew;
    if (to->kind == TyInfo::Scalar || total <= 128) {
      V acc; bool sym = false;
      if (from->kind == TyInfo::VecK) { for (auto &x : *v.agg) if (x.e) sym = true; } else sym = v.e != nullptr;
      if (!sym) { if (from->kind == TyInfo::VecK) { u128 r = 0; for (size_t i = 0; i < v.agg->size(); i++) r |= (*v.agg)[i].c << (ew * i); acc = V(r); } else acc = v; }
      else if (from->kind == TyInfo::VecK) { Expr *r = ex((*v.agg)[0], ew); for (size_t i = 1; i < v.agg->size(); i++) r = X.concat(ex((*v.agg)[i], ew), r); acc = V(r); }
      else acc = v;
      if (to->kind == TyInfo::Scalar) return acc;
      V out; out.agg = std::make_shared<std::vector<V>>(); unsigned tw = to->w;
      for (size_t i = 0; i < to->elems.size(); i++) out.agg->push_back(acc.e ? V(X.extract(acc.e, tw * i, tw)) : V((acc.c >> (tw * i)) & maskw(tw)));
      return out;
    }
    throw Unsupported("bitcast");
  }
  V castOp(unsigned opc, const V &v, unsigned fw, unsigned tw) {
    switch (opc) {
    case Instruction::ZExt: return v.e ? V(X.zext(v.e, tw)) : v;
    case Instruction::SExt: return v.e ? V(X.sext(v.e, tw)) : V((u128)sx(v.c, fw) & maskw(tw));
    case Instruction::Trunc: return v.e ? V(X.extract(v.e, 0, tw)) : V(v.c & maskw(tw));
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (tw == fw) return v; if (tw < fw) return v.e ? V(X.extract(v.e, 0, tw)) : V(v.c & maskw(tw)); return v.e ? V(X.zext(v.e, tw)) : v;
    }
    throw Unsupported("cast");
  }
  V bytesEq(State &s, u64 a, u64 b, u64 n, bool order) {
    if (!n) return V();
    Obj *x = objAt(s, a, n, false), *y = objAt(s, b, n, false); u64 ao = a & 0xffffffffu, bo = b & 0xffffffffu;
    bool sym = false; for (u64 i = 0; i < n && (x->nsym || y->nsym); i++) if (x->isSym(ao + i) || y->isSym(bo + i)) { sym = true; break; }
    if (!sym) { int r = memcmp(x->data + ao, y->data + bo, n); return V((u128)(u32)(r < 0 ? -1 : r > 0 ? 1 : 0)); }
    if (!order) {
      Expr *all = X.cst(1, 1);
      for (u64 i = 0; i < n; i++) all = X.bin(O_AND, all, X.eq(x->byteE(ao + i), y->byteE(bo + i)));
      return V(X.zext(X.notE(all), 32));
    }
    Expr *r = X.cst(0, 32);
    for (u64 i = n; i-- > 0;) {
      Expr *p = x->byteE(ao + i), *q = y->byteE(bo + i);
      r = X.ite(X.eq(p, q), r, X.ite(X.ult(p, q), X.cst(0xffffffffu, 32), X.cst(1, 32)));
    }
    return V(r);
  }
  std::string readStr(State &s, u64 a, u64 n) {
    std::string r; if (!n) return r; Obj *o = objAt(s, a, n, false); u64 off = a & 0xffffffffu;
    for (u64 i = 0; i < n; i++) r += o->isSym(off + i) ? (char)(u8)evalM(s, o->sym[off + i]) : (char)o->data[off + i];
    return r;
  }
  std::string where(State &s) {
    std::string r; int k = 0;
    for (size_t i = s.stack.size(); i-- > 0 && k < 12; k++) { if (k) r += " < "; std::string d = demangle(s.stack[i]->fn->name); if (d.size() > 20 && d.rfind("::h") == d.size() - 19) d.resize(d.size() - 19); r += d; }
    return r;
  }
  std::vector<u8> bytesOf(State &s, Model &m) { std::vector<u8> b(*m); b.resize(s.nvars, 0); return b; }
  void report(State &s, const std::string &kind, const std::string &msg, Model &m) {
    Violation v; v.kind = kind; v.msg = msg; v.bytes = bytesOf(s, m); v.where = where(s); v.note = s.note;
    viols.push_back(v);
  }
  // returns true if handled (dst set / advanced)
  bool builtin(State &s, Fn *f, DInst &d, std::vector<V> &a, V &ret) {
    switch (f->builtin) {
    case B_PANIC: throw EndPath{"panic", demangle(f->name)};
    case B_NOOP: return true;
    case B_BYTE: {
      u32 i = s.nvars++; if (s.nvars > maxVarsSeen) maxVarsSeen = s.nvars;
      ret = V(X.var(i)); auto m = std::make_shared<std::vector<u8>>(*s.model); m->resize(s.nvars, 0); s.model = m; return true;
    }
    case B_ASSUME: {
      V c = a[0]; if (c.e) c = V(X.notE(X.eq(c.e, X.cst(0, c.e->w))));
      if (!c.e) { if (!c.c) throw Infeasible(); return true; }
      if (inKnown(s, c.e)) return true;
      if (!(evalM(s, c.e) & 1)) { Model m; if (!feasible(s, c.e, m)) throw Infeasible(); s.model = m; }
      constrain(s, c.e); return true;
    }
    case B_ASSERT: {
      V c = a[0]; if (c.e) c = V(X.notE(X.eq(c.e, X.cst(0, c.e->w))));
      if (!c.e) { assertsConc++; if (!c.c) throw EndPath{"assert", readStr(s, (u64)a[1].c, (u64)a[2].c)}; return true; }
      assertsSym++;
      bool mv; Model om; int r = decide(s, c.e, mv, om);
      if (r == 1) return true;
      if (r == 0) throw EndPath{"assert", readStr(s, (u64)a[1].c, (u64)a[2].c)};
      if (mv) { report(s, "assert", readStr(s, (u64)a[1].c, (u64)a[2].c), om); constrain(s, c.e); }
      else { report(s, "assert", readStr(s, (u64)a[1].c, (u64)a[2].c), s.model); s.model = om; constrain(s, c.e); }
      return true;
    }
    case B_FAIL: throw EndPath{"assert", readStr(s, (u64)a[0].c, (u64)a[1].c)};
    case B_COVER: s.covers.push_back((u32)a[0].c); return true;
    case B_CONC: { u128 v = conc(s, a[0], 64); ret = V(v); return true; }
    case B_LOG: s.log.push_back(a[0]); return true;
    case B_STR: { std::string t = readStr(s, (u64)conc(s, a[0], 64), (u64)conc(s, a[1], 64)); if (s.note.size() < 4000) { s.note += t; s.note += "; "; } return true; }
    case B_ACTIVE: ret = V((u128)1); return true;
    case B_DONE: throw EndPath{"ok", ""};
    case B_EXPECT_PANIC: s.expectPanic = true; return true;
    case B_MALLOC: { u64 n = (u64)conc(s, a[0], 64); ret = V((u128)((u64)s.mem.alloc(n) << 32)); return true; }
    case B_CALLOC: { u64 n = (u64)conc(s, a[0], 64), k = (u64)conc(s, a[1], 64); ret = V((u128)((u64)s.mem.alloc(n * k) << 32)); return true; }
    case B_REALLOC: {
      u64 p = (u64)conc(s, a[0], 64), n = (u64)conc(s, a[1], 64); u64 q = (u64)s.mem.alloc(n) << 32;
      if (p) { Obj *o = objAt(s, p, 0, false); memCopy(s, q, p, std::min<u64>(n, o->size)); s.mem.release(p >> 32); }
      ret = V((u128)q); return true;
    }
    case B_FREE: { u64 p = (u64)conc(s, a[0], 64); if (p) { objAt(s, p, 0, false); if (p & 0xffffffffu) throw EndPath{"memory", "bad free"}; s.mem.release(p >> 32); } return true; }
    case B_MEMALIGN: { u64 n = (u64)conc(s, a[2], 64); V p((u128)((u64)s.mem.alloc(n) << 32)); static TyInfo t64; t64.kind = TyInfo::Scalar; t64.w = 64; t64.bytes = 8; storeAt(s, a[0], &t64, p); ret = V(); return true; }
    case B_MEMCMP: case B_BCMP: { u64 p = (u64)conc(s, a[0], 64), q = (u64)conc(s, a[1], 64), n = (u64)conc(s, a[2], 64); ret = bytesEq(s, p, q, n, f->builtin == B_MEMCMP); return true; }
    case B_STRLEN: { u64 p = (u64)conc(s, a[0], 64); u64 n = 0; for (;; n++) { Obj *o = objAt(s, p + n, 1, false); u64 off = (p + n) & 0xffffffffu; if (o->isSym(off)) throw Unsupported("strlen of symbolic"); if (!o->data[off]) break; } ret = V((u128)n); return true; }
    case B_MEMCHR: throw Unsupported("memchr");
    case B_SYSCALL: {
      u64 n = (u64)a[0].c;
      if (n == 318) { u64 p = (u64)a[1].c, len = (u64)a[2].c; Obj *o = objAt(s, p, len, true); for (u64 i = 0; i < len; i++) o->put((p & 0xffffffffu) + i, 0); ret = V((u128)len); return true; }
      throw Unsupported("syscall " + std::to_string(n));
    }
    case B_WRITE: ret = a[2]; return true;
    case B_ABORT: throw EndPath{"panic", "abort"};
    case B_KEY: { static TyInfo t32; t32.kind = TyInfo::Scalar; t32.w = 32; t32.bytes = 4; storeAt(s, a[0], &t32, V((u128)1)); ret = V(); return true; }
    case B_ZERO: ret = V(); return true;
    case B_ERRNO: if (!s.errnoObj) s.errnoObj = s.mem.alloc(8); ret = V((u128)((u64)s.errnoObj << 32)); return true;
    }
    return false;
  }
  bool intrinsic(State &s, Frame &fr, DInst &d, V &ret) {
    auto A = [&](unsigned i) -> const V & { return get(fr, d.ops[i]); };
    unsigned w = d.w;
    auto pick = [&](const V &c, const V &a, const V &b) { if (!forkSelect || !c.e || w < 32) return sel(c, a, b, w); V x = a, y = b; return decideReexec(s, c.e) ? x : y; };
    switch (d.iid) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::prefetch: case Intrinsic::x86_sse2_pause: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: throw EndPath{"panic", "llvm.trap"};
    case Intrinsic::threadlocal_address: case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret = A(0); return true;
    case Intrinsic::is_constant: ret = V(); return true;
    case Intrinsic::objectsize: ret = V(maskw(w)); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = (u64)conc(s, A(2), 64); u64 p = (u64)conc(s, A(0), 64); u64 q = (u64)conc(s, A(1), 64); memCopy(s, p, q, n); return true; }
    case Intrinsic::memset: {
      u64 n = (u64)conc(s, A(2), 64); u64 p = (u64)conc(s, A(0), 64); V b = A(1); if (!n) return true;
      Obj *o = objAt(s, p, n, true); u64 off = p & 0xffffffffu;
      if (!b.e && !o->nsym) memset(o->data + off, (int)(u8)b.c, n); else for (u64 i = 0; i < n; i++) if (b.e) o->putE(off + i, b.e); else o->put(off + i, (u8)b.c);
      return true;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned n = d.ty2->w; V x = A(0), y = A(1), r, o;
      bool sg = d.iid == Intrinsic::sadd_with_overflow || d.iid == Intrinsic::ssub_with_overflow || d.iid == Intrinsic::smul_with_overflow;
      Op op = (d.iid == Intrinsic::uadd_with_overflow || d.iid == Intrinsic::sadd_with_overflow) ? O_ADD : (d.iid == Intrinsic::usub_with_overflow || d.iid == Intrinsic::ssub_with_overflow) ? O_SUB : O_MUL;
      if (n > 64) throw Unsupported("wide overflow op");
      unsigned n2 = op == O_MUL ? 2 * n : n + 1; if (op == O_MUL && n2 > 128) throw Unsupported("wide mul");
      if (!x.e && !y.e) {
        u128 X2 = sg ? (u128)sx(x.c, n) : x.c, Y2 = sg ? (u128)sx(y.c, n) : y.c; u128 full = op == O_ADD ? X2 + Y2 : op == O_SUB ? X2 - Y2 : X2 * Y2;
        u128 lo = full & maskw(n); bool ov = sg ? (u128)sx(lo, n) != full : full != lo; r = V(lo); o = V((u128)ov);
      } else {
        Expr *a = ex(x, n), *b = ex(y, n);
        Expr *wa = sg ? X.sext(a, n2) : X.zext(a, n2), *wb = sg ? X.sext(b, n2) : X.zext(b, n2);
        r = V(X.bin(op, a, b));
        if (op == O_ADD && !sg) o = V(X.ult(ex(r, n), a)); else if (op == O_SUB && !sg) o = V(X.ult(a, b));
        else { Expr *full = X.bin(op, wa, wb); Expr *back = sg ? X.sext(ex(r, n), n2) : X.zext(ex(r, n), n2); o = V(X.notE(X.eq(full, back))); }
      }
      ret.agg = std::make_shared<std::vector<V>>(); ret.agg->push_back(r); ret.agg->push_back(o); return true;
    }
    case Intrinsic::umax: ret = lift2(d.ty, A(0), A(1), [&](const V &a, const V &b) { V c = cmp(CmpInst::ICMP_UGT, a, b, w); return pick(c, a, b); }); return true;
    case Intrinsic::umin: ret = lift2(d.ty, A(0), A(1), [&](const V &a, const V &b) { V c = cmp(CmpInst::ICMP_ULT, a, b, w); return pick(c, a, b); }); return true;
    case Intrinsic::smax: ret = lift2(d.ty, A(0), A(1), [&](const V &a, const V &b) { V c = cmp(CmpInst::ICMP_SGT, a, b, w); return pick(c, a, b); }); return true;
    case Intrinsic::smin: ret = lift2(d.ty, A(0), A(1), [&](const V &a, const V &b) { V c = cmp(CmpInst::ICMP_SLT, a, b, w); return pick(c, a, b); }); return true;
    case Intrinsic::uadd_sat: ret = lift2(d.ty, A(0), A(1), [&](const V &a, const V &b) { V r = arith(O_ADD, a, b, w); V c = cmp(CmpInst::ICMP_ULT, r, a, w); return sel(c, V(maskw(w)), r, w); }); return true;
    case Intrinsic::usub_sat: ret = lift2(d.ty, A(0), A(1), [&](const V &a, const V &b) { V r = arith(O_SUB, a, b, w); V c = cmp(CmpInst::ICMP_ULT, a, b, w); return sel(c, V((u128)0), r, w); }); return true;
    case Intrinsic::abs: { V z0; V n = arith(O_SUB, z0, A(0), w); ret = sel(cmp(CmpInst::ICMP_SLT, A(0), z0, w), n, A(0), w); return true; }
    case Intrinsic::ctpop: { V v = A(0); if (v.e) { Expr *r = X.cst(0, w); for (unsigned i = 0; i < w; i++) r = X.bin(O_ADD, r, X.zext(X.extract(v.e, i, 1), w)); ret = V(r); } else { int k = 0; for (unsigned i = 0; i < w; i++) k += (int)(v.c >> i & 1); ret = V((u128)k); } return true; }
    case Intrinsic::cttz: { V v = A(0); if (v.e) { Expr *r = X.cst(w, w); for (unsigned i = w; i-- > 0;) r = X.ite(X.extract(v.e, i, 1), X.cst(i, w), r); ret = V(r); } else { unsigned k = 0; while (k < w && !(v.c >> k & 1)) k++; ret = V((u128)k); } return true; }
    case Intrinsic::ctlz: { V v = A(0); if (v.e) { Expr *r = X.cst(w, w); for (unsigned i = 0; i < w; i++) r = X.ite(X.extract(v.e, i, 1), X.cst(w - 1 - i, w), r); ret = V(r); } else { unsigned k = 0; while (k < w && !(v.c >> (w - 1 - k) & 1)) k++; ret = V((u128)k); } return true; }
    case Intrinsic::bswap: { V v = A(0); if (v.e) { Expr *r = X.extract(v.e, w - 8, 8); for (unsigned i = 2; i <= w / 8; i++) r = X.concat(X.extract(v.e, w - 8 * i, 8), r); ret = V(r); } else { u128 r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((v.c >> (8 * i)) & 0xff) << (w - 8 - 8 * i); ret = V(r); } return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      ret = V(); V hi = A(0), lo = A(1); u128 k = conc(s, A(2), w) % w; bool l = d.iid == Intrinsic::fshl;
      if (l) { if (k == 0) ret = hi; else ret = arith(O_OR, arith(O_SHL, hi, V(k), w), arith(O_LSHR, lo, V((u128)w - k), w), w); }
      else { if (k == 0) ret = lo; else ret = arith(O_OR, arith(O_SHL, hi, V((u128)w - k), w), arith(O_LSHR, lo, V(k), w), w); }
      return true;
    }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: {
      V v = A(0); Op o = d.iid == Intrinsic::vector_reduce_add ? O_ADD : d.iid == Intrinsic::vector_reduce_or ? O_OR : O_AND;
      V r = (*v.agg)[0]; for (size_t i = 1; i < v.agg->size(); i++) r = arith(o, r, (*v.agg)[i], w); ret = r; return true;
    }
    case Intrinsic::x86_sse2_pmovmskb_128: { V v = A(0); V r((u128)0); bool sym = false; for (auto &x : *v.agg) if (x.e) sym = true;
      if (!sym) { u128 m = 0; for (size_t i = 0; i < v.agg->size(); i++) m |= ((*v.agg)[i].c >> 7 & 1) << i; ret = V(m); }
      else { Expr *e = X.extract(ex((*v.agg)[0], 8), 7, 1); for (size_t i = 1; i < v.agg->size(); i++) e = X.concat(X.extract(ex((*v.agg)[i], 8), 7, 1), e); ret = V(X.zext(e, w)); }
      return true; }
    }
    return false;
  }
  V sel(const V &c, const V &a, const V &b, unsigned w) {
    if (!c.e) return c.c ? a : b;
    if (a.agg) { V r; r.agg = std::make_shared<std::vector<V>>(); for (size_t i = 0; i < a.agg->size(); i++) { unsigned ew = (*a.agg)[i].e ? (*a.agg)[i].e->w : (*b.agg)[i].e ? (*b.agg)[i].e->w : 0; if (!ew) throw Unsupported("aggregate select"); r.agg->push_back(sel(c, (*a.agg)[i], (*b.agg)[i], ew)); } return r; }
    return V(X.ite(c.e, ex(a, w), ex(b, w)));
  }
  // run one state to the end of its path
  void run(State &s) {
    for (;;) {
      Frame &fr = s.top();
      DInst &d = fr.fn->code[fr.ip];
      s.instrs++;
      if (traceOn) { std::string t; raw_string_ostream os(t); d.I->print(os); fprintf(stderr, "[%s] %s\n", fr.fn->name.c_str(), os.str().c_str()); for (auto &o : d.ops) { const V &v = get(fr, o); fprintf(stderr, "    op r%d %s %llx\n", o.reg, v.e ? "SYM" : v.agg ? "AGG" : "c", (unsigned long long)v.c); } }
      if ((s.instrs & 0xfff) == 0) {
        if (s.instrs > maxInstr) throw EndPath{"diverge", "instruction limit"};
        if (now() - t0 > maxTime) throw Unsupported("time limit");
      }
      auto A = [&](unsigned i) -> const V & { return get(fr, d.ops[i]); };
      switch (d.opc) {
      case Instruction::Br:
        if (d.ops.empty()) { edge(s, fr, d.idx[0]); continue; }
        {
          const V &c = A(0);
          if (!c.e) { edge(s, fr, d.idx[c.c ? 0 : 1]); continue; }
          bool mv; Model om; Expr *ce = c.e; int r = decide(s, ce, mv, om);
          if (r >= 0) { edge(s, fr, d.idx[r ? 0 : 1]); continue; }
          State *o = cloneFor(s, mv ? X.notE(ce) : ce, om);
          edge(*o, o->top(), d.idx[mv ? 1 : 0]); work.push_back(o);
          constrain(s, mv ? ce : X.notE(ce)); s.forks++;
          edge(s, s.top(), d.idx[mv ? 0 : 1]);
          continue;
        }
      case Instruction::Switch: {
        const V &v = A(0);
        if (!v.e) { u32 t = d.idx[0]; for (size_t i = 0; i < d.cases.size(); i++) if (d.cases[i].c == v.c) { t = d.idx[i + 1]; break; } edge(s, fr, t); continue; }
        // group by destination
        std::map<u32, Expr *> conds; Expr *any = X.cst(0, 1);
        for (size_t i = 0; i < d.cases.size(); i++) { Expr *e = X.eq(v.e, X.cst(d.cases[i].c, d.w)); any = X.bin(O_OR, any, e); auto it = conds.find(d.idx[i + 1]); if (it == conds.end()) conds[d.idx[i + 1]] = e; else it->second = X.bin(O_OR, it->second, e); }
        Expr *def = X.notE(any); { auto it = conds.find(d.idx[0]); if (it == conds.end()) conds[d.idx[0]] = def; else it->second = X.bin(O_OR, it->second, def); }
        u32 chosen = ~0u; Expr *cc = nullptr; branchesSym++;
        for (auto &p : conds) if (evalM(s, p.second) & 1) { chosen = p.first; cc = p.second; break; }
        if (!v.e->vars.subsetOf(s.bound)) {
          for (auto &p : conds) {
            if (p.first == chosen || Exprs::isC(p.second) || inKnown(s, X.notE(p.second))) continue;
            Model om; if (feasible(s, p.second, om)) { State *o = cloneFor(s, p.second, om); edge(*o, o->top(), p.first); work.push_back(o); } else addKnown(s, X.notE(p.second));
          }
          constrain(s, cc);
        }
        edge(s, s.top(), chosen); continue;
      }
      case Instruction::Ret: {
        V r; if (!d.ops.empty()) r = A(0);
        for (u32 a : fr.allocas) s.mem.release(a);
        Frame *f = s.stack.back(); s.stack.pop_back(); if (--f->refs == 0) delete f;
        if (s.stack.empty()) throw EndPath{"ok", ""};
        Frame &c = s.top(); DInst &ci = c.fn->code[c.ip];
        if (ci.dst >= 0) c.regs[ci.dst] = std::move(r);
        if (ci.opc == Instruction::Invoke) edge(s, c, ci.idx[0]); else c.ip++;
        continue;
      }
      case Instruction::Call: case Instruction::Invoke: {
        if (d.iid == ~0u) { fr.ip++; continue; } // inline asm barrier (black_box): no effect
        V ret;
        if (d.iid) {
          if (!intrinsic(s, fr, d, ret)) throw Unsupported("intrinsic " + d.callee->name);
          Frame &f2 = s.top(); if (d.dst >= 0) f2.regs[d.dst] = std::move(ret); if (d.opc == Instruction::Invoke) edge(s, f2, d.idx[0]); else f2.ip++; continue;
        }
        Fn *callee = d.callee; size_t na = d.ops.size();
        if (!callee) {
          na--; u64 p = (u64)conc(s, A(na), 64); u64 i = p >> 32;
          if (i < FN_BASE || i - FN_BASE >= fnv.size()) throw EndPath{"memory", "call through invalid function pointer"};
          callee = fnv[i - FN_BASE];
        }
        std::vector<V> args; args.reserve(na); for (size_t i = 0; i < na; i++) args.push_back(A(i));
        if (callee->builtin) {
          if (builtin(s, callee, d, args, ret)) { callee->entered = true; Frame &f2 = s.top(); if (d.dst >= 0) f2.regs[d.dst] = std::move(ret); if (d.opc == Instruction::Invoke) edge(s, f2, d.idx[0]); else f2.ip++; continue; }
        }
        if (callee->F->arg_size() < args.size()) args.resize(callee->F->arg_size());
        enter(s, callee, std::move(args)); continue;
      }
      case Instruction::Unreachable: throw EndPath{"panic", "unreachable executed"};
      case Instruction::Resume: throw EndPath{"panic", "resume"};
      case Instruction::Load: { V v = loadAt(s, A(0), d.ty); Frame &f2 = s.top(); f2.regs[d.dst] = std::move(v); f2.ip++; continue; }
      case Instruction::Store: { storeAt(s, A(1), d.ty2, A(0)); s.top().ip++; continue; }
      case Instruction::Alloca: { u64 n = (u64)conc(s, A(0), 64); u32 i = s.mem.alloc(d.imm * n); Frame &f2 = s.top(); f2.allocas.push_back(i); f2.regs[d.dst] = V((u128)((u64)i << 32)); f2.ip++; continue; }
      case Instruction::GetElementPtr: {
        const V &b = A(0);
        if (!b.e) {
          bool sym = false; u64 r = (u64)b.c + d.imm;
          for (auto &g : d.gep) { const V &x = get(fr, g.o); if (x.e) { sym = true; break; } r += (u64)(int64_t)sx(x.c, g.w) * g.scale; }
          if (!sym) { fr.regs[d.dst] = V((u128)r); fr.ip++; continue; }
        }
        Expr *r = X.bin(O_ADD, ex(b, 64), X.cst(d.imm, 64));
        for (auto &g : d.gep) { Expr *x = X.sext(ex(get(fr, g.o), g.w), 64); r = X.bin(O_ADD, r, X.bin(O_MUL, x, X.cst(g.scale, 64))); }
        fr.regs[d.dst] = V(r); fr.ip++; continue;
      }
      case Instruction::ICmp: {
        V r = d.ty2->kind == TyInfo::VecK ? lift2(d.ty2, A(0), A(1), [&](const V &a, const V &b) { return cmp(d.pred, a, b, d.w); }) : cmp(d.pred, A(0), A(1), d.w);
        fr.regs[d.dst] = std::move(r); fr.ip++; continue;
      }
      case Instruction::Select: {
        const V &c = A(0); V r;
        if (d.ty->kind == TyInfo::VecK && c.agg) { r.agg = std::make_shared<std::vector<V>>(); for (size_t i = 0; i < d.ty->elems.size(); i++) r.agg->push_back(sel((*c.agg)[i], (*A(1).agg)[i], (*A(2).agg)[i], d.ty->w)); }
        else if (!c.e) r = c.c ? A(1) : A(2);
        else if (d.ty->kind != TyInfo::Scalar || (forkSelect && d.w >= 32)) { bool b = decideReexec(s, c.e); Frame &f2 = s.top(); r = b ? get(f2, d.ops[1]) : get(f2, d.ops[2]); f2.regs[d.dst] = r; f2.ip++; continue; }
        else r = sel(c, A(1), A(2), d.w);
        fr.regs[d.dst] = std::move(r); fr.ip++; continue;
      }
#define ARITH(OPC, O) case Instruction::OPC: { fr.regs[d.dst] = lift2(d.ty, A(0), A(1), [&](const V &a, const V &b) { return arith(O, a, b, d.w); }); fr.ip++; continue; }
      ARITH(Add, O_ADD) ARITH(Sub, O_SUB) ARITH(Mul, O_MUL) ARITH(And, O_AND) ARITH(Or, O_OR) ARITH(Xor, O_XOR) ARITH(Shl, O_SHL) ARITH(LShr, O_LSHR) ARITH(AShr, O_ASHR)
      ARITH(UDiv, O_UDIV) ARITH(SDiv, O_SDIV) ARITH(URem, O_UREM) ARITH(SRem, O_SREM)
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: {
        const V &v = A(0);
        if (d.ty->kind == TyInfo::VecK) { V r; r.agg = std::make_shared<std::vector<V>>(); for (auto &x : *v.agg) r.agg->push_back(castOp(d.opc, x, d.ty2->w, d.w)); fr.regs[d.dst] = std::move(r); }
        else fr.regs[d.dst] = castOp(d.opc, v, d.ty2->w, d.w);
        fr.ip++; continue;
      }
      case Instruction::BitCast: fr.regs[d.dst] = bitcast(A(0), d.ty2, d.ty); fr.ip++; continue;
      case Instruction::Freeze: fr.regs[d.dst] = V(A(0)); fr.ip++; continue;
      case Instruction::ExtractValue: { V v = A(0); for (u32 i : d.idx) { V t = (*v.agg)[i]; v = t; } fr.regs[d.dst] = v; fr.ip++; continue; }
      case Instruction::InsertValue: {
        V v = A(0); v.agg = std::make_shared<std::vector<V>>(*v.agg); V *p = &v;
        for (size_t k = 0; k < d.idx.size(); k++) { p = &(*p->agg)[d.idx[k]]; if (k + 1 < d.idx.size()) p->agg = std::make_shared<std::vector<V>>(*p->agg); }
        *p = A(1); fr.regs[d.dst] = v; fr.ip++; continue;
      }
      case Instruction::ExtractElement: { u64 i = (u64)conc(s, A(1), d.w); Frame &f2 = s.top(); V r = (*get(f2, d.ops[0]).agg)[i]; f2.regs[d.dst] = r; f2.ip++; continue; }
      case Instruction::InsertElement: { u64 i = (u64)conc(s, A(2), d.w); Frame &f2 = s.top(); V v = get(f2, d.ops[0]); v.agg = std::make_shared<std::vector<V>>(*v.agg); (*v.agg)[i] = get(f2, d.ops[1]); f2.regs[d.dst] = v; f2.ip++; continue; }
      case Instruction::ShuffleVector: {
        V r; r.agg = std::make_shared<std::vector<V>>(); const V &a = A(0), &b = A(1); size_t n = a.agg->size();
        for (u32 m : d.idx) { if ((int)m < 0) r.agg->push_back(V()); else if (m < n) r.agg->push_back((*a.agg)[m]); else r.agg->push_back((*b.agg)[m - n]); }
        fr.regs[d.dst] = r; fr.ip++; continue;
      }
      case Instruction::Fence: fr.ip++; continue;
      case Instruction::AtomicRMW: {
        V old = loadAt(s, A(0), d.ty); Frame &f2 = s.top(); V x = get(f2, d.ops[1]), nv;
        switch (d.pred) {
        case AtomicRMWInst::Xchg: nv = x; break; case AtomicRMWInst::Add: nv = arith(O_ADD, old, x, d.w); break; case AtomicRMWInst::Sub: nv = arith(O_SUB, old, x, d.w); break;
        case AtomicRMWInst::And: nv = arith(O_AND, old, x, d.w); break; case AtomicRMWInst::Or: nv = arith(O_OR, old, x, d.w); break; case AtomicRMWInst::Xor: nv = arith(O_XOR, old, x, d.w); break;
        default: throw Unsupported("atomicrmw");
        }
        storeAt(s, get(f2, d.ops[0]), d.ty, nv); Frame &f3 = s.top(); f3.regs[d.dst] = old; f3.ip++; continue;
      }
      case Instruction::AtomicCmpXchg: {
        TyInfo *t = d.ty->elems[0].second; V old = loadAt(s, A(0), t); V eq = cmp(CmpInst::ICMP_EQ, old, A(1), t->w);
        bool b = eq.e ? decideReexec(s, eq.e) : (bool)eq.c; Frame &f2 = s.top();
        if (b) storeAt(s, get(f2, d.ops[0]), t, get(f2, d.ops[2]));
        V r; r.agg = std::make_shared<std::vector<V>>(); r.agg->push_back(old); r.agg->push_back(V((u128)b));
        Frame &f3 = s.top(); f3.regs[d.dst] = r; f3.ip++; continue;
      }
      default: throw Unsupported(std::string("instruction ") + d.I->getOpcodeName());
      }
    }
  }
  u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
  void explore(const std::string &entry) {
    t0 = now(); rng = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
    Function *F = M->getFunction(entry);
    if (!F) { fprintf(stderr, "no entry %s\n", entry.c_str()); exit(2); }
    State *s0 = new State(); s0->mem.~Mem(); new (&s0->mem) Mem(*initMem);
    s0->model = std::make_shared<std::vector<u8>>();
    enter(*s0, fnOf(F), {}); work.push_back(s0);
    while (!work.empty()) {
      State *s = work.back(); work.pop_back();
      try { run(*s); }
      catch (EndPath &e) {
        paths++;
        bool ok = e.kind == "ok";
        if (e.kind == "panic" && s->expectPanic) { ok = true; pathsPanicOk++; }
        if (ok) {
          pathsOk++;
          for (u32 c : s->covers) covers[c]++;
          // reservoir of completed paths for replay
          u64 n = pathsOk; bool take = samples.size() < nsamples; size_t slot = samples.size();
          if (!take) { slot = rnd() % n; take = slot < nsamples; }
          if (take && e.kind == "ok" && nsamples) {
            Sample sm; sm.bytes = bytesOf(*s, s->model); u64 h = 1469598103934665603ull;
            for (auto &v : s->log) { u64 x = v.e ? (u64)evalM(*s, v.e) : (u64)v.c; for (int i = 0; i < 8; i++) { h ^= (x >> (8 * i)) & 0xff; h *= 1099511628211ull; } }
            sm.loghash = h; sm.nlog = s->log.size(); sm.note = s->note;
            if (slot < samples.size()) samples[slot] = sm; else samples.push_back(sm);
          }
        } else report(*s, e.kind, e.msg, s->model);
      }
      catch (Infeasible &) { pathsAssumed++; }
      catch (Unsupported &u) { incomplete = std::string(u.what()) + " at " + where(*s); instrTotal += s->instrs; delete s; break; }
      instrTotal += s->instrs; if (s->instrs > maxPathInstr) maxPathInstr = s->instrs;
      delete s;
      if (viols.size() >= maxViol) { if (!work.empty()) incomplete = "stopped after violations"; break; }
      if (paths >= maxPaths) { incomplete = "path limit"; break; }
      if (now() - t0 > maxTime) { incomplete = "time limit"; break; }
    }
  }
  static std::string hex(const std::vector<u8> &b) { std::string r; char t[3]; for (u8 x : b) { snprintf(t, 3, "%02x", x); r += t; } return r; }
  static std::string js(const std::string &s) {
    std::string r = "\""; char t[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(t, 8, "\\u%04x", c); r += t; } else r += c; }
    return r + "\"";
  }
  void output(FILE *f, const std::string &entry) {
    fprintf(f, "{\"entry\":%s,\"complete\":%s,\"incomplete\":%s,\"paths\":%llu,\"paths_ok\":%llu,\"paths_infeasible_assume\":%llu,\"forks\":%llu,\"instructions\":%llu,\"max_path_instructions\":%llu,"
      "\"z3_queries\":%llu,\"cache_hits\":%llu,\"z3_sat\":%llu,\"z3_unsat\":%llu,\"z3_time_s\":%.3f,\"witness_sat\":%llu,\"literal_hits\":%llu,\"bound_hits\":%llu,\"symbolic_branches\":%llu,\"asserts_concrete\":%llu,\"asserts_symbolic\":%llu,"
      "\"max_depth\":%u,\"max_sym_bytes\":%u,\"wall_s\":%.3f,\"expected_panics\":%llu,\"exprs\":%u,",
      js(entry).c_str(), incomplete.empty() ? "true" : "false", js(incomplete).c_str(), (unsigned long long)paths, (unsigned long long)pathsOk, (unsigned long long)pathsAssumed, (unsigned long long)forksTotal, (unsigned long long)instrTotal, (unsigned long long)maxPathInstr,
      (unsigned long long)z3q, (unsigned long long)cacheHits, (unsigned long long)z3sat, (unsigned long long)z3unsat, z3time, (unsigned long long)quickSat, (unsigned long long)knownHits, (unsigned long long)boundHits, (unsigned long long)branchesSym, (unsigned long long)assertsConc, (unsigned long long)assertsSym,
      maxDepthSeen, maxVarsSeen, now() - t0, (unsigned long long)pathsPanicOk, X.nextId);
    fprintf(f, "\"covers\":{"); bool first = true; for (auto &c : covers) { fprintf(f, "%s\"%u\":%llu", first ? "" : ",", c.first, (unsigned long long)c.second); first = false; }
    fprintf(f, "},\"violations\":["); first = true;
    for (auto &v : viols) { fprintf(f, "%s{\"kind\":%s,\"msg\":%s,\"bytes\":\"%s\",\"where\":%s,\"note\":%s}", first ? "" : ",", js(v.kind).c_str(), js(v.msg).c_str(), hex(v.bytes).c_str(), js(v.where).c_str(), js(v.note).c_str()); first = false; }
    fprintf(f, "],\"samples\":["); first = true;
    for (auto &v : samples) { fprintf(f, "%s{\"bytes\":\"%s\",\"loghash\":\"%016llx\",\"nlog\":%llu,\"note\":%s}", first ? "" : ",", hex(v.bytes).c_str(), (unsigned long long)v.loghash, (unsigned long long)v.nlog, js(v.note).c_str()); first = false; }
    fprintf(f, "],\"functions\":["); first = true;
    for (auto *fn : fnv) if (fn->entered) { std::string d = demangle(fn->name); if (d.size() > 20 && d.rfind("::h") == d.size() - 19) d.resize(d.size() - 19); fprintf(f, "%s%s", first ? "" : ",", js(d).c_str()); first = false; }
    fprintf(f, "]}\n");
  }
};

static int runOne(Engine &E, const std::string &entry, const std::string &out) {
  E.z3init(); E.explore(entry);
  FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
  E.output(f, entry); if (f != stdout) fclose(f);
  fflush(stdout);
  return !E.viols.empty() ? 1 : E.incomplete.empty() ? 0 : 2;
}
// options are NAME VALUE pairs; --batch FILE: one "entry out [options]" line per harness, each
// explored in a forked child of a process that has loaded the module once
static void setOpt(Engine &E, const std::string &a, const std::string &v) {
  if (a == "--max-time") E.maxTime = std::stod(v); else if (a == "--max-instr") E.maxInstr = std::stoull(v);
  else if (a == "--max-depth") E.maxDepth = std::stoul(v); else if (a == "--fork-select") E.forkSelect = v != "0"; else if (a == "--max-viol") E.maxViol = std::stoul(v); else if (a == "--seed") E.seed = std::stoull(v); else if (a == "--samples") E.nsamples = std::stoul(v);
  else if (a == "--dump") E.dumpPrefix = v; else if (a == "--dump-every") E.dumpEvery = std::stoul(v); else if (a == "--max-paths") E.maxPaths = std::stoull(v);
  else { fprintf(stderr, "unknown option %s\n", a.c_str()); exit(2); }
}
int main(int argc, char **argv) {
  Engine E; std::string bc, out, batch, entry;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a[0] != '-') { bc = a; continue; }
    std::string v = argv[++i];
    if (a == "--entry") entry = v; else if (a == "--out") out = v; else if (a == "--batch") batch = v; else setOpt(E, a, v);
  }
  E.load(bc);
  if (batch.empty()) _exit(runOne(E, entry, out));
  std::ifstream in(batch); std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line); std::string en, o, a, v; is >> en >> o;
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(2); }
    if (p == 0) { while (is >> a >> v) setOpt(E, a, v); _exit(runOne(E, en, o)); }
    int st; waitpid(p, &st, 0);
    printf("%s %d\n", en.c_str(), WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st)); fflush(stdout);
  }
  _exit(0);
}
